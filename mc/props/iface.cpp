// Interface contract (C12) and metadata (C13): all operation sequences up to the bound against a reference map and an
// undisturbed twin model.
#include "family.hpp"
using namespace vp;
static void checked() { stats->checks++; }

struct Var { const char *name; int grid; const char *type, *units, *loc; int kind; };   // kind 0 input 1 output 2 calibratable
static const std::vector<Var> VARS = {
    {"precipitation_rate", 1, "double", "mm h^-1", "node", 0}, {"potential_evapotranspiration_rate", 1, "double", "mm h^-1", "node", 0},
    {"soil_temperature_profile", 4, "double", "K", "node", 0},
    {"soil_moisture_wetting_fronts", 3, "double", "none", "node", 1}, {"soil_depth_layers", 2, "double", "m", "node", 1},
    {"soil_depth_wetting_fronts", 3, "double", "m", "node", 1}, {"soil_num_wetting_fronts", 0, "int", "none", "node", 1},
    {"precipitation", 1, "double", "m", "node", 1}, {"potential_evapotranspiration", 1, "double", "m", "node", 1},
    {"actual_evapotranspiration", 1, "double", "m", "node", 1}, {"surface_runoff", 1, "double", "m", "node", 1},
    {"giuh_runoff", 1, "double", "m", "node", 1}, {"soil_storage", 1, "double", "m", "node", 1}, {"total_discharge", 1, "double", "m", "node", 1},
    {"infiltration", 1, "double", "m", "node", 1}, {"percolation", 1, "double", "m", "node", 1},
    {"groundwater_to_stream_recharge", 1, "double", "m", "node", 1}, {"mass_balance", 1, "double", "m", "node", 1},
    {"smcmax", 2, "double", "none", nullptr, 2}, {"smcmin", 2, "double", "none", nullptr, 2}, {"van_genuchten_n", 2, "double", "none", nullptr, 2},
    {"van_genuchten_alpha", 2, "double", "none", nullptr, 2}, {"hydraulic_conductivity", 2, "double", "none", nullptr, 2},
    {"field_capacity", 1, "double", "none", nullptr, 2}, {"ponded_depth_max", 1, "double", "none", nullptr, 2}};
static const std::vector<std::string> UNKNOWN = {"", "precipitation_rat", "precipitation_rate ", "Smcmax", "soil_moisture", "soil_storage_m", "no_such_variable", "soil_num_wetting_front"};

static int items(const Config &c, const Var &v, int nwf) { return v.grid == 2 ? c.nl() : v.grid == 3 ? nwf : v.grid == 4 ? std::max(1, (int)c.soil_z.size()) : 1; }
static bool readable(const Config &c, const Var &v) { return v.grid != 4 || !c.soil_z.empty(); }
static const int CAP = 4096;
// GetValue into a buffer with sentinels; the number of bytes written must be exactly the documented one
static std::vector<double> fetch(Model &m, const Var &v, int n, bool isint) {
  static unsigned char buf[CAP * 8];
  size_t want = isint ? 4 * n : 8 * n;
  std::vector<double> r;
  unsigned char pat[2] = {0xEE, 0x11};
  for (int k = 0; k < 2; k++) {
    memset(buf, pat[k], std::min(sizeof buf, want + 256));
    int rc = guarded([&] { m.b->GetValue(v.name, buf); });
    if (rc != OK) fail("GetValue(%s) ended with %s (%s)", v.name, outcome_name(rc), last_outcome_detail.c_str());
    for (size_t i = want; i < want + 256 && i < sizeof buf; i++)
      if (buf[i] != pat[k]) fail("GetValue(%s) wrote more than the %d items of the variable", v.name, n);
    std::vector<double> x(n);
    for (int i = 0; i < n; i++) {
      if (isint) { int t; memcpy(&t, buf + 4 * i, 4); x[i] = t; }
      else memcpy(&x[i], buf + 8 * i, 8);
    }
    if (k && memcmp(x.data(), r.data(), 8 * n)) fail("GetValue(%s) did not write all %d items", v.name, n);
    r = x;
  }
  return r;
}
static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 8 * a.size())); }
static std::string vec(const std::vector<double> &a) { std::string s = "["; for (double x : a) s += fmt("%.17g ", x); return s + "]"; }

// ------------------------------------------------------------------ C12
struct Ref { std::map<std::string, std::vector<double>> v; int updates = 0; };
enum { SETV, PTR, IDX, UPD, UNTIL, UNK, IDXREV };
struct Op { const char *name; int kind; const char *var; double a, b; };
static const std::vector<Op> OPS = {
    {"P:=3", SETV, "precipitation_rate", 3, 0}, {"*P:=45", PTR, "precipitation_rate", 45, 0}, {"P[0]:=0", IDX, "precipitation_rate", 0, 0},
    {"*PET:=0.4", PTR, "potential_evapotranspiration_rate", 0.4, 0}, {"PET[0]:=0", IDX, "potential_evapotranspiration_rate", 0, 0},
    {"T:=", SETV, "soil_temperature_profile", 272.9, 0.05}, {"T[i]:=", IDXREV, "soil_temperature_profile", 273.0, 0.03},
    {"smcmax[last]:=", IDX, "smcmax", 0.37, 0}, {"Ks:=", SETV, "hydraulic_conductivity", 0.9, 0.3}, {"n[rev]:=", IDXREV, "van_genuchten_n", 1.5, 0.1},
    {"*fc:=", PTR, "field_capacity", 250, 0}, {"pond[0]:=", IDX, "ponded_depth_max", 1.5, 0}, {"*smcmin:=", PTR, "smcmin", 0.05, 0.01}, {"alpha:=", SETV, "van_genuchten_alpha", 0.01, 0.002},
    {"storage:=", SETV, "soil_storage", 7, 0}, {"theta[last]:=", IDX, "soil_moisture_wetting_fronts", 0.2, 0}, {"*depths:=", PTR, "soil_depth_wetting_fronts", 5, 1}, {"runoff[0]:=", IDX, "surface_runoff", 2, 0},
    {"unknown", UNK, "", 0, 0}, {"Update", UPD, "", 0, 0}, {"UpdateUntil+2", UNTIL, "", 0, 0}};

static void compare_all(const Config &c, Model &m, const Ref &q, const char *after) {
  int nwf = 0;
  m.b->GetValue("soil_num_wetting_fronts", &nwf);
  for (auto &v : VARS) {
    if (!readable(c, v)) continue;
    int n = items(c, v, nwf);
    bool isint = v.grid == 0;
    auto x = fetch(m, v, n, isint);
    auto it = q.v.find(v.name);
    checked();
    if (it == q.v.end() || !same(x, it->second))
      fail("after %s, %s is %s, expected %s", after, v.name, vec(x).c_str(), it == q.v.end() ? "?" : vec(it->second).c_str());
    // pointer access
    void *p = nullptr;
    int rc = guarded([&] { p = m.b->GetValuePtr(v.name); });
    if (rc != OK || (!p && n)) fail("GetValuePtr(%s) ended with %s", v.name, rc != OK ? outcome_name(rc) : "a null pointer");
    for (int i = 0; i < n; i++) {
      double y = 0;
      if (isint) { int t; memcpy(&t, (char *)p + 4 * i, 4); y = t; } else memcpy(&y, (char *)p + 8 * i, 8);
      if (memcmp(&y, &x[i], 8)) fail("after %s, the pointer to %s shows %.17g at %d, GetValue %.17g", after, v.name, y, i, x[i]);
    }
    // indexed access: identity, reversed with repetition, single elements, empty
    std::vector<std::vector<int>> pats;
    std::vector<int> id, rev;
    for (int i = 0; i < n; i++) { id.push_back(i); rev.push_back(n - 1 - i); rev.push_back(n - 1 - i); }
    pats = {id, rev, {}, {n - 1}};
    for (auto &pt : pats) {
      std::vector<int> in = pt;
      in.push_back(0);
      std::vector<double> d(pt.size() + 1, -77.25);
      std::vector<int> di(pt.size() + 1, -77);
      rc = guarded([&] { m.b->GetValueAtIndices(v.name, isint ? (void *)di.data() : (void *)d.data(), in.data(), (int)pt.size()); });
      if (rc != OK) fail("GetValueAtIndices(%s) ended with %s", v.name, outcome_name(rc));
      for (size_t i = 0; i < pt.size(); i++) {
        double y = isint ? di[i] : d[i];
        if (memcmp(&y, &x[pt[i]], 8)) fail("after %s, GetValueAtIndices(%s) gives %.17g at index %d, GetValue %.17g", after, v.name, y, pt[i], x[pt[i]]);
      }
      if (isint ? di[pt.size()] != -77 : d[pt.size()] != -77.25) fail("GetValueAtIndices(%s) wrote more than %d values", v.name, (int)pt.size());
    }
  }
}
static void c12_case(const Config &c, int depth, const std::vector<int> &ops, int fixed) {
  Explorer<Ref> e;
  e.c = c;
  e.depth = depth;
  if (fixed >= 0) e.fixed = {fixed};
  e.a.name = "ops";
  for (int o : ops) e.a.s.push_back({OPS[o].name, 0, 0, 1});
  Model *twin = new Model();
  std::string path = write_config(c);
  const Ref *cur = nullptr;                    // reference before the operation
  auto find = [](const Sym &s) -> const Op & { for (auto &o : OPS) if (!strcmp(o.name, s.name)) return o; abort(); };
  auto values = [](const Op &op, int n) { std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(op.a + op.b * i); return x; };
  auto count = [&](Model &m, const char *name) {
    int nwf = 0;
    m.b->GetValue("soil_num_wetting_fronts", &nwf);
    for (auto &v : VARS) if (!strcmp(v.name, name)) return items(c, v, nwf);
    return 0;
  };
  (void)cur;
  e.start = [&](Ref &q, Model &m, const Obs &o) {
    twin->drop();
    if (twin->init(path) != OK) fail("initialisation ended with %s", last_outcome_detail.c_str());
    for (auto &v : VARS) if (readable(c, v)) q.v[v.name] = fetch(m, v, items(c, v, o.nwf), v.grid == 0);
    q.v["precipitation_rate"] = q.v["potential_evapotranspiration_rate"] = {0};
    double z = 0;
    m.call([&] { m.b->SetValue("precipitation_rate", &z); m.b->SetValue("potential_evapotranspiration_rate", &z); });
    if (!c.soil_z.empty()) {
      std::vector<double> T(c.soil_z.size(), 280.0);
      q.v["soil_temperature_profile"] = T;
      m.call([&] { m.b->SetValue("soil_temperature_profile", T.data()); });
    }
    compare_all(c, m, q, "initialisation");
  };
  e.advance = [&](Model &m, const Sym &s) {
    const Op &op = find(s);
    int n = count(m, op.var);
    std::vector<double> x = values(op, n);
    switch (op.kind) {
      case SETV: return m.call([&] { m.b->SetValue(op.var, x.data()); });
      case PTR: return m.call([&] { double *p = (double *)m.b->GetValuePtr(op.var); for (int i = 0; i < n; i++) p[i] = x[i]; });
      case IDX: { int i = n - 1; return m.call([&] { m.b->SetValueAtIndices(op.var, &i, 1, &x[i]); }); }
      case IDXREV: { std::vector<int> id; std::vector<double> y; for (int i = n - 1; i >= 0; i--) { id.push_back(i); y.push_back(x[i]); } return m.call([&] { m.b->SetValueAtIndices(op.var, id.data(), n, y.data()); }); }
      case UPD: stats->updates++; return m.call([&] { m.b->Update(); });
      case UNTIL: stats->updates += 2; return m.call([&] { m.b->UpdateUntil(m.b->GetCurrentTime() + 2 * m.b->GetTimeStep()); });
      default: {
        double d[8] = {1, 2, 3, 4, 5, 6, 7, 8};
        int id[2] = {0, 0};
        for (auto &u : UNKNOWN) {
          int r[5];
          r[0] = m.call([&] { m.b->GetValue(u, d); });
          r[1] = m.call([&] { m.b->SetValue(u, d); });
          r[2] = m.call([&] { m.b->GetValuePtr(u); });
          r[3] = m.call([&] { m.b->GetValueAtIndices(u, d, id, 1); });
          r[4] = m.call([&] { m.b->SetValueAtIndices(u, id, 1, d); });
          for (int i = 0; i < 5; i++)
            if (r[i] == OK) fail("accessor %d accepted the unknown variable '%s'", i, u.c_str());
            else if (r[i] != EXCEPTION) fail("accessor %d ended the process for the unknown variable '%s': %s", i, u.c_str(), outcome_name(r[i]));
          for (int i = 0; i < 8; i++) if (d[i] != i + 1) fail("an accessor modified the caller's buffer for the unknown variable '%s'", u.c_str());
        }
        return (int)OK;
      }
    }
  };
  e.step = [&](Ref &q, Model &m, const StepInfo &si, const Obs &, const Obs &) {
    const Op &op = find(*si.sym);
    stats->nontrivial += op.kind != UNK;
    if (op.kind == UPD || op.kind == UNTIL) {
      for (int k = 0; k < (op.kind == UNTIL ? 2 : 1); k++) {
        if (c.calib) {
          int rc = twin->call([&] { for (auto &v : VARS) if (v.kind == 2) twin->b->SetValue(v.name, (void *)q.v[v.name].data()); });
          if (rc != OK) fail("setting parameters on the twin: %s", outcome_name(rc));
        }
        auto T = q.v.count("soil_temperature_profile") ? q.v["soil_temperature_profile"] : std::vector<double>();
        int rc = twin->step(q.v["precipitation_rate"][0], q.v["potential_evapotranspiration_rate"][0], T.empty() ? nullptr : &T);
        if (rc != OK) fail("the twin ended with %s (%s)", outcome_name(rc), last_outcome_detail.c_str());
      }
      Obs o = twin->obs();
      for (auto &v : VARS)
        if (v.kind == 1) q.v[v.name] = fetch(*twin, v, items(c, v, o.nwf), v.grid == 0);
      q.updates++;
      stats->aux[0]++;
    } else if (op.kind != UNK) {
      auto &x = q.v[op.var];
      auto y = values(op, (int)x.size());
      if (op.kind == IDX) { if (!x.empty()) x.back() = y.back(); } else x = y;
      stats->aux[1]++;
    } else stats->aux[2]++;
    compare_all(c, m, q, op.name);
  };
  sample(c.name + " operations " + fmt("%d", (int)ops.size()) + " depth " + fmt("%d", depth));
  e.run();
  twin->drop();
}
static std::vector<Config> iface_configs() {
  std::vector<Config> v;
  for (int k = 0; k < 8; k++) {
    const Column &col = COLUMNS[(k * 3) % COLUMNS.size()];
    Config c = make(col, MODES[k], k % 2 ? 300 : 2000);
    if (k % 3 == 0) {
      c.sft = true;
      for (int l = 1; l <= c.nl(); l++) { double t = l > 1 ? c.bot(l - 1) : 0; c.soil_z.push_back(t + 0.4 * (c.bot(l) - t)); c.soil_z.push_back(c.bot(l)); }
      c.name += "/sft";
    }
    if (k % 2 == 0) { c.calib = true; c.name += "/calib"; }
    v.push_back(c);
  }
  return v;
}
static Reg r12({"C12", [](std::vector<Job> &J, bool th) {
                  for (auto &c : iface_configs()) {
                    std::vector<int> all;
                    for (int i = 0; i < (int)OPS.size(); i++) {
                      if (!strcmp(OPS[i].var, "soil_temperature_profile") && c.soil_z.empty()) continue;
                      // parameters of a calibrated model must stay physically consistent, and are read once, at the first Update
                      all.push_back(i);
                    }
                    for (int f = 0; f < (int)all.size(); f++) {
                      if (th) J.push_back({c.name + fmt("/d4/%d", f), [=] { c12_case(c, 4, all, f); }});
                      else J.push_back({c.name + fmt("/d3/%d", f), [=] { c12_case(c, 3, all, f); }});
                    }
                    std::vector<int> few = {1, 2, 3, 7, 10, 15, 18, 19};
                    for (int f = 0; f < (int)few.size(); f++) J.push_back({c.name + fmt("/few/%d", f), [=] { c12_case(c, th ? 6 : 4, few, f); }});
                  }
                },
                "a check is one variable read by value, by pointer and by indices after one operation and compared with the reference; non-trivial: the operation was a set or an Update",
                {"updates_compared_with_twin", "set_operations", "unknown_name_operations"}});

// ------------------------------------------------------------------ C13
static void meta(const Config &c, Model &m, const Obs &o) {
  BmiLGAR *b = m.b;
  int nwf = (int)o.f.size(), nl = c.nl(), nt = c.soil_z.empty() ? 1 : (int)c.soil_z.size();
  int want[5] = {1, 1, nl, nwf, nt};
  int rc = guarded([&] {
    checked();
    stats->nontrivial++;
    if (o.nwf != nwf) fail("%d fronts reported, the profile has %d", o.nwf, nwf);
    for (int g = 0; g < 5; g++) {
      if (b->GetGridRank(g) != 1) fail("rank of grid %d is %d", g, b->GetGridRank(g));
      if (b->GetGridSize(g) != want[g]) fail("size of grid %d is %d, expected %d", g, b->GetGridSize(g), want[g]);
      int shape[4] = {-9, -9, -9, -9};
      b->GetGridShape(g, shape);
      if (shape[0] != want[g] || shape[1] != -9 || shape[2] != -9) fail("shape of grid %d is [%d,%d,%d], size is %d", g, shape[0], shape[1], shape[2], want[g]);
    }
    for (int g : {-1, 5, 6, 99})
      if (b->GetGridRank(g) != -1 || b->GetGridSize(g) != -1) fail("unknown grid %d has rank %d and size %d", g, b->GetGridRank(g), b->GetGridSize(g));
    for (auto &v : VARS) {
      int g = b->GetVarGrid(v.name);
      std::string t = b->GetVarType(v.name), u = b->GetVarUnits(v.name), l = b->GetVarLocation(v.name);
      int is = b->GetVarItemsize(v.name), nb = b->GetVarNbytes(v.name);
      checked();
      if (g != v.grid) fail("grid of %s is %d, expected %d", v.name, g, v.grid);
      if (t != v.type) fail("type of %s is %s", v.name, t.c_str());
      if (is != (v.grid == 0 ? (int)sizeof(int) : (int)sizeof(double))) fail("item size of %s is %d", v.name, is);
      if (u != v.units) fail("units of %s are '%s', documented '%s'", v.name, u.c_str(), v.units);
      if (v.loc && l != v.loc) fail("location of %s is '%s'", v.name, l.c_str());
      if (nb != is * want[g]) fail("%s has %d bytes, expected %d items of %d", v.name, nb, want[g], is);
      fetch(m, v, want[g], v.grid == 0);
    }
    for (auto &u : UNKNOWN)
      if (b->GetVarGrid(u) != -1 || b->GetVarItemsize(u) != 0 || b->GetVarType(u) != "none" || b->GetVarNbytes(u) != 0)
        fail("unknown variable '%s' has grid %d, item size %d, type %s, %d bytes", u.c_str(), b->GetVarGrid(u), b->GetVarItemsize(u), b->GetVarType(u).c_str(), b->GetVarNbytes(u));
    auto in = b->GetInputVarNames(), out = b->GetOutputVarNames();
    if ((int)in.size() != b->GetInputItemCount() || (int)out.size() != b->GetOutputItemCount()) fail("variable counts %d/%d for %d/%d names", b->GetInputItemCount(), b->GetOutputItemCount(), (int)in.size(), (int)out.size());
    std::set<std::string> xi, xo;
    for (auto &v : VARS) if (v.kind == 0) xi.insert(v.name); else if (v.kind == 1) xo.insert(v.name);
    if (std::set<std::string>(in.begin(), in.end()) != xi || in.size() != xi.size()) fail("input variable names differ from the documented ones");
    if (std::set<std::string>(out.begin(), out.end()) != xo || out.size() != xo.size()) fail("output variable names differ from the documented ones");
    for (auto &n : in) if (b->GetVarGrid(n) < 0) fail("input %s has no grid", n.c_str());
    for (auto &n : out) if (!b->GetValuePtr(n)) fail("output %s has no data", n.c_str());
    if (b->GetTimeUnits() != "s" || b->GetStartTime() != 0 || fabs(b->GetTimeStep() - c.forcing_s) > 1e-6 || fabs(b->GetEndTime() - c.endtime_h * 3600) > 1e-3)
      fail("time step %g %s, start %g, end %g", b->GetTimeStep(), b->GetTimeUnits().c_str(), b->GetStartTime(), b->GetEndTime());
    // the data themselves, in the reported units
    std::vector<double> lb(nl);
    b->GetValue("soil_depth_layers", lb.data());
    for (int i = 0; i < nl; i++) if (!(fabs(lb[i] * 100 - c.bot(i + 1)) <= 1e-9)) fail("soil_depth_layers[%d] is %.12g m, layer %d ends at %g cm", i, lb[i], i + 1, c.bot(i + 1));
    for (int i = 0; i < nwf; i++) {
      if (!(fabs(o.z[i] * 100 - o.f[i].depth) <= 1e-9 * o.f[i].depth)) fail("reported depth of front %d is %.12g m, it is at %.12g cm", i + 1, o.z[i], o.f[i].depth);
      if (o.th[i] != o.f[i].theta) fail("reported moisture of front %d is %.12g, it is %.12g", i + 1, o.th[i], o.f[i].theta);
    }
    if (!(fabs(o.z[nwf - 1] * 100 - c.depth()) <= 1e-9)) fail("deepest front at %.12g m, the soil ends at %g cm", o.z[nwf - 1], c.depth());
  });
  if (rc != OK) fail("a metadata function ended with %s (%s)", outcome_name(rc), last_outcome_detail.c_str());
}
struct None {};
static Reg r13({"C13", [](std::vector<Job> &J, bool th) {
                  auto setup = [](Explorer<None> &e) {
                    Config c = e.c;
                    e.start = [=](None &, Model &m, const Obs &o) { meta(c, m, o); };
                    e.step = [=](None &, Model &m, const StepInfo &, const Obs &b, const Obs &o) {
                      if (o.nwf > b.nwf) stats->aux[0]++;
                      if (o.nwf < b.nwf) stats->aux[1]++;
                      meta(c, m, o);
                    };
                  };
                  static const Alphabet A{"meta", {{"dry", 0, 0, 1}, {"pet", 0, 0.5, 12}, {"drz", 1, 0.1, 2}, {"rain", 8, 0.1, 1}, {"storm", 60, 0, 2}}};
                  std::vector<Case> v;
                  for (size_t i = 0; i < COLUMNS.size(); i++)
                    for (size_t j = 0; j < MODES.size(); j++) {
                      if (!th && (i + j) % 2) continue;
                      Config c = make(COLUMNS[i], MODES[j], (i + j) % 3 ? 2000 : 300);
                      if ((i + j / 2) % 2) { c.sft = true; for (int l = 1; l <= c.nl(); l++) { c.soil_z.push_back(c.bot(l) - 1); c.soil_z.push_back(c.bot(l)); } c.name += "/sft"; }
                      if (j % 3 == 0) { c.calib = true; c.name += "/calib"; }
                      v.push_back({c, A, th ? 6 : 4});
                    }
                  // with coupling the temperature profile must be set before the first Update
                  add_jobs<None>(J, v, [=](Explorer<None> &e) {
                    setup(e);
                    size_t n = e.c.soil_z.size();
                    e.advance = [n](Model &m, const Sym &s) { std::vector<double> T(n, 275.0); return m.step(s.p, s.pet, n ? &T : nullptr); };
                  });
                },
                "a check is the complete metadata of one variable, or of all grids, names and times, in one state; every one compares reported sizes with data actually exchanged",
                {"updates_adding_a_front", "updates_removing_fronts"}});
