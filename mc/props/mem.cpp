// C09: memory safety, termination and release of memory on every history of forcing and interface operations up to the
// bound, on an address/undefined-behaviour-sanitized build. Choices are explored with fork(): the parent keeps the state
// before the choice, the child takes it. Linear mode re-executes every history from a fresh model.
#include "family.hpp"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;
static void checked() { stats->checks++; }
static const std::vector<std::string> NAMES = {
    "precipitation_rate", "potential_evapotranspiration_rate", "soil_temperature_profile", "soil_moisture_wetting_fronts", "soil_depth_layers",
    "soil_depth_wetting_fronts", "soil_num_wetting_fronts", "precipitation", "potential_evapotranspiration", "actual_evapotranspiration",
    "surface_runoff", "giuh_runoff", "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance",
    "smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max"};

struct MOp { std::string name; std::function<int(Model &)> f; };
struct Mem {
  Config c;
  std::string path;
  std::vector<MOp> ops, warm;            // warm: common prefix of all histories
  int depth = 3;
  bool every = true;
  std::vector<int> seq;
  int fixed = -1;

  void init(Model &m) {
    trail_reset();
    trail("config " + c.name + " file " + path);
    int r = m.init(path);
    if (r != OK) fail("initialisation of a valid configuration ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
    double zero = 0;                                     // inputs are set before the model is advanced
    m.call([&] { m.b->SetValue("precipitation_rate", &zero); m.b->SetValue("potential_evapotranspiration_rate", &zero); });
    if (!c.soil_z.empty()) {
      std::vector<double> T(c.soil_z.size(), 280.0);
      m.call([&] { m.b->SetValue("soil_temperature_profile", T.data()); });
    }
    for (auto &o : warm) {
      trail(o.name);
      int r = o.f(m);
      if (r != OK) fail("%s ended with %s (%s)", o.name.c_str(), outcome_name(r), last_outcome_detail.c_str());
    }
  }
  void op(Model &m, int k) {
    trail(ops[k].name);
    int r = ops[k].f(m);
    checked();
    if (r != OK) fail("%s ended with %s (%s)", ops[k].name.c_str(), outcome_name(r), last_outcome_detail.c_str());
  }
  void fin(Model &m) {
    std::string s;
    int r = m.finalize(&s);
    checked();
    if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
  }
  // everything the model allocated is released; one-time allocations of the library do not grow when the history is repeated
  void leaf(Model &m, uint64_t base) {
    stats->sequences++;
    fin(m);
    stats->aux[0]++;
    if (arena_live() <= base) return;
    uint64_t n[3];
    for (auto &x : n) {
      Model k;
      init(k);
      for (int q : seq) op(k, q);
      fin(k);
      x = arena_live();
    }
    if (n[1] > n[0] && n[2] > n[1]) fail("%lu blocks allocated by the model are not released by Finalize and destruction", (unsigned long)(n[2] - n[1]));
  }
  static void child_or_wait(const std::function<void()> &f) {
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      f();
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) _exit(2);
    if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(99); }
    if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
  }
  void rec(Model &m, uint64_t base) {
    if (every || (int)seq.size() == depth) {
      if ((int)seq.size() == depth) leaf(m, base);
      else if (seq.size() || fixed <= 0) child_or_wait([&] { leaf(m, base); });
    }
    if ((int)seq.size() == depth) return;
    size_t tn = ctx->trail.size();
    for (int k = 0; k < (int)ops.size(); k++) {
      if (seq.empty() && fixed >= 0 && k != fixed) continue;
      seq.push_back(k);
      child_or_wait([&] { op(m, k); stats->steps_unique++; note(m); rec(m, base); });
      trail_pop(tn);
      seq.pop_back();
    }
  }
  void note(Model &m) { Obs o = m.obs(); note_state(hash_obs(o, hash_str(path))); if (o.nwf > c.nl()) stats->nontrivial++; }
  void lin() {
    if (every || (int)seq.size() == depth) {
      uint64_t base = arena_live();
      Model m;
      init(m);
      for (int q : seq) { op(m, q); m.obs(); }
      leaf(m, base);
    }
    if ((int)seq.size() == depth) return;
    for (int k = 0; k < (int)ops.size(); k++) {
      if (seq.empty() && fixed >= 0 && k != fixed) continue;
      seq.push_back(k);
      lin();
      seq.pop_back();
    }
  }
  void run() {
    if (path.empty()) path = write_config(c);
    { Model w; init(w); fin(w); }                       // one-time allocations of the libraries
    if (getenv("VP_LINEAR")) { lin(); return; }
    uint64_t base = arena_live();
    child_or_wait([&] { Model m; init(m); note(m); rec(m, base); m.drop(); });
  }
};
static MOp forcing(const Sym &s, const std::vector<double> &T = {}) {
  return {fmt("%s: %d x Update(P=%g, PET=%g mm/h)", s.name, s.n, s.p, s.pet), [=](Model &m) {
            for (int i = 0; i < s.n; i++) {
              bool alt = s.p2 >= 0 && i % 2;
              int r = m.step(alt ? s.p2 : s.p, alt ? s.pet2 : s.pet, T.empty() ? nullptr : &T);
              if (r != OK) return r;
              m.obs();                                  // into vectors of exactly the reported size
            }
            return (int)OK;
          }};
}
// buffers of exactly the documented size on the heap, so that the sanitizer sees every byte too many
static int all_values(Model &m, int how) {
  for (auto &n : NAMES) {
    int r = m.call([&] {
      int nb = m.b->GetVarNbytes(n), is = m.b->GetVarItemsize(n);
      if (nb <= 0 || is <= 0) return;
      int cnt = nb / is;
      char *buf = (char *)malloc(nb);
      int *ix = (int *)malloc(sizeof(int) * cnt);
      if (how == 0) m.b->GetValue(n, buf);
      if (how == 1) { char *p = (char *)m.b->GetValuePtr(n); if (p) memcpy(buf, p, nb); else memset(buf, 0, nb); }
      if (how == 2) { for (int i = 0; i < cnt; i++) ix[i] = cnt - 1 - i; m.b->GetValueAtIndices(n, buf, ix, cnt); }
      if (how == 3) { m.b->GetValue(n, buf); m.b->SetValue(n, buf); }
      if (how == 4) { m.b->GetValue(n, buf); for (int i = 0; i < cnt; i++) ix[i] = i; m.b->SetValueAtIndices(n, ix, cnt, buf); }
      free(buf);
      free(ix);
    });
    if (r != OK) return r;
  }
  return OK;
}
static int metadata(Model &m) {
  return m.call([&] {
    for (auto &n : NAMES) {
      int g = m.b->GetVarGrid(n);
      std::string s = m.b->GetVarType(n) + m.b->GetVarUnits(n) + m.b->GetVarLocation(n);
      int rank = m.b->GetGridRank(g), size = m.b->GetGridSize(g);
      (void)size;
      if (g > 0 && rank >= 1 && rank < 4) {
        int *sh = (int *)malloc(sizeof(int) * rank);
        double *d = (double *)malloc(sizeof(double) * rank), *o = (double *)malloc(sizeof(double) * rank);
        try { m.b->GetGridShape(g, sh); } catch (std::exception &) {}
        try { m.b->GetGridSpacing(g, d); } catch (std::exception &) {}
        try { m.b->GetGridOrigin(g, o); } catch (std::exception &) {}
        try { s += m.b->GetGridType(g); } catch (std::exception &) {}
        free(sh); free(d); free(o);
      }
    }
    auto in = m.b->GetInputVarNames(), out = m.b->GetOutputVarNames();
    std::string s = m.b->GetComponentName() + m.b->GetTimeUnits();
    double t = m.b->GetCurrentTime() + m.b->GetStartTime() + m.b->GetEndTime() + m.b->GetTimeStep();
    (void)t;
  });
}
static int unknown(Model &m) {
  return m.call([&] {
    double d[4] = {1, 2, 3, 4};
    int ix[2] = {0, 0};
    for (const char *n : {"", "nothing", "precipitation_rate_", "soil_moisture_wetting_front"}) {
      for (int k = 0; k < 8; k++)
        try {
          if (k == 0) m.b->GetValue(n, d);
          if (k == 1) m.b->SetValue(n, d);
          if (k == 2) m.b->GetValuePtr(n);
          if (k == 3) m.b->GetValueAtIndices(n, d, ix, 1);
          if (k == 4) m.b->SetValueAtIndices(n, ix, 1, d);
          if (k == 5) m.b->GetVarNbytes(n);
          if (k == 6) m.b->GetVarItemsize(n);
          if (k == 7) { m.b->GetVarGrid(n); m.b->GetVarUnits(n); m.b->GetVarType(n); m.b->GetVarLocation(n); }
        } catch (std::exception &) {
        }
    }
  });
}
static int params(Model &m, double smc, double n, double ks, double pond) {
  return m.call([&] {
    int nl = m.b->GetVarNbytes("smcmax") / 8;
    std::vector<double> a(nl), b(nl), c(nl);
    for (int i = 0; i < nl; i++) { a[i] = smc - 0.01 * i; b[i] = n + 0.05 * i; c[i] = ks * (i + 1); }
    m.b->SetValue("smcmax", a.data());
    m.b->SetValue("van_genuchten_n", b.data());
    m.b->SetValue("hydraulic_conductivity", c.data());
    m.b->SetValue("ponded_depth_max", &pond);
  });
}
static int temps(Model &m, double t0, double dt) {
  return m.call([&] {
    int n = m.b->GetVarNbytes("soil_temperature_profile") / 8;
    std::vector<double> T(n);
    for (int i = 0; i < n; i++) T[i] = t0 + dt * i;
    m.b->SetValue("soil_temperature_profile", T.data());
  });
}
static std::vector<MOp> iface_ops(const Config &c) {
  std::vector<MOp> v;
  v.push_back({"storm", [](Model &m) { int r = OK; for (int i = 0; i < 4 && r == OK; i++) r = m.step(40, 0.1); return r; }});
  v.push_back({"rain+pet", [](Model &m) { return m.step(3, 0.4); }});
  v.push_back({"drought", [](Model &m) { int r = OK; for (int i = 0; i < 60 && r == OK; i++) r = m.step(0, 0.4); return r; }});
  v.push_back({"UpdateUntil(+3.5 steps)", [](Model &m) { stats->updates += 3; return m.call([&] { m.b->UpdateUntil(m.b->GetCurrentTime() + 3.5 * m.b->GetTimeStep()); }); }});
  v.push_back({"UpdateUntil(now)", [](Model &m) { return m.call([&] { if (m.b->GetCurrentTime() > 0) m.b->UpdateUntil(m.b->GetCurrentTime()); }); }});
  v.push_back({"GetValue of everything", [](Model &m) { return all_values(m, 0); }});
  v.push_back({"GetValuePtr of everything", [](Model &m) { return all_values(m, 1); }});
  v.push_back({"GetValueAtIndices of everything", [](Model &m) { return all_values(m, 2); }});
  v.push_back({"SetValue of everything to itself", [](Model &m) { return all_values(m, 3); }});
  v.push_back({"SetValueAtIndices of everything to itself", [](Model &m) { return all_values(m, 4); }});
  v.push_back({"metadata", metadata});
  v.push_back({"unknown names", unknown});
  if (c.calib) {
    v.push_back({"parameters A", [](Model &m) { return params(m, 0.45, 1.4, 0.5, 1); }});
    v.push_back({"parameters B", [](Model &m) { return params(m, 0.36, 1.9, 2.0, 0); }});
  }
  if (c.sft) v.push_back({"frost", [](Model &m) { return temps(m, 271, 0.5); }});
  return v;
}
static std::vector<Config> iface_configs() {
  std::vector<Config> v;
  for (int k = 0; k < 8; k++) {
    Config c = make(COLUMNS[(k * 5) % COLUMNS.size()], MODES[k], k % 2 ? 300 : 3000);
    c.calib = k & 1;
    if (k & 2) { c.sft = true; for (int l = 1; l <= c.nl(); l++) for (int i = 1; i <= (k & 4 ? 1 : 3); i++) c.soil_z.push_back(c.bot(l - 1) + c.thick[l - 1] * i / (k & 4 ? 1 : 3)); }
    if (k == 4) c.giuh = {1.0};
    if (k == 5) c.giuh = {0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1, 0.05, 0.05};
    if (k == 6) { c.soil[0] = 19; c.max_types = 18; }          // no soil: everything runs off
    if (k == 7) c.verbosity = "high";
    c.name += fmt("/calib%d/sft%d/giuh%d/%s", c.calib, c.sft, (int)c.giuh.size(), c.verbosity.c_str());
    v.push_back(c);
  }
  return v;
}
// ---------------------------------------------------------------- configurations that are not valid: rejected or accepted, never undefined behaviour
static void bad_config(const std::string &text, const std::string &what) {
  std::string p = write_text(text, "bad");
  trail_reset();
  trail("config " + what + " file " + p);
  Mem::child_or_wait([&] {
    Model m;
    int r = m.init(p);
    checked();
    stats->aux[1]++;
    if (r == HANG) fail("Initialize did not return for a configuration with %s", what.c_str());
    if (r == OK) { stats->aux[2]++; m.drop(); }
  });
  stats->sequences++;
}
static void bad_configs(const Config &c) {
  sample(c.name + ": every line mutated");
  std::string soils = write_soils(SOILS);
  auto L = c.lines(soils);
  auto join = [](const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + "\n"; return s; };
  for (size_t i = 0; i < L.size(); i++) {
    size_t eq = L[i].find('=');
    std::string key = L[i].substr(0, eq), val = L[i].substr(eq + 1);
    std::string unit = val.find('[') == std::string::npos ? "" : val.substr(val.find('['));
    std::string bare = val.substr(0, val.find('['));
    std::vector<std::pair<std::string, std::string>> muts = {
        {"empty", key + "="}, {"no =", key}, {"word", key + "=abc" + unit}, {"only unit", key + "=" + unit}, {"only comma", key + "=," + unit},
        {"first item", key + "=" + bare.substr(0, bare.find(',')) + unit}, {"one item more", key + "=" + bare + ",7" + unit},
        {"two items more", key + "=" + bare + ",7,8" + unit}, {"trailing comma", key + "=" + bare + "," + unit}, {"doubled", L[i] + "\n" + L[i]},
        {"unclosed unit", key + "=" + bare + "[cm"}, {"unknown unit", key + "=" + bare + "[furlong]"}, {"spaces", key + " = " + val},
        {"other list", key + "=1,2" + unit}, {"missing", ""}};
    for (auto &mu : muts) {
      auto M = L;
      M[i] = mu.second;
      if (mu.first == "missing") M.erase(M.begin() + i);
      bad_config(join(M), fmt("%s of %s in %s", mu.first.c_str(), key.c_str(), c.name.c_str()));
    }
  }
  for (size_t n = 0; n < L.size(); n++) bad_config(join(std::vector<std::string>(L.begin(), L.begin() + n)), fmt("only the first %d lines", (int)n));
  std::string whole = join(L);
  for (size_t n = 0; n < whole.size(); n += 7) bad_config(whole.substr(0, n), fmt("only the first %d bytes", (int)n));
  // soil files
  std::vector<std::pair<std::string, std::string>> files = {{"missing", ""}, {"empty", "-"}, {"header only", "\"Texture\tx\"\n"}};
  std::string row = "\"Loam\"\t0.06\t0.4\t0.01\t1.47\t0.504\n", head = "\"Texture\ttheta_r\ttheta_e\talpha(cm^-1)\tn\tKs(cm/h)\"\n", t = head;
  for (int k = 1; k <= 18; k++) { t += row; if (k % 3 == 0) files.push_back({fmt("%d rows", k), t}); }
  files.push_back({"short rows", head + "\"Loam\"\t0.06\t0.4\n\"Loam\"\t0.06\n\"Loam\"\n"});
  for (int n : {20, 24, 25, 26, 29, 30, 31, 40, 100, 230}) files.push_back({fmt("a soil name of %d characters", n), head + std::string(n, 'x') + "\t0.06\t0.4\t0.01\t1.47\t0.504\n" + t.substr(head.size())});
  files.push_back({"a line of 600 characters", head + "\"Loam\"\t0.06\t0.4\t0.01\t1.47\t0.504" + std::string(600, ' ') + "\n" + t.substr(head.size())});
  files.push_back({"blank lines", head + "\n\n" + row + "\n" + row});
  for (auto &f : files) {
    std::string p = f.first == "missing" ? scratch() + "/no_such_soils.dat" : write_text(f.second == "-" ? "" : f.second, "soilfile");
    bad_config(c.text(p), fmt("soil file with %s", f.first.c_str()));
  }
  std::string p = scratch() + "/no_such_config.txt";
  trail("missing configuration file");
  Mem::child_or_wait([&] { Model m; int r = m.init(p); checked(); if (r == OK || r == HANG) fail("a configuration file that does not exist: %s", outcome_name(r)); });
}
static Reg r09({"C09", [](std::vector<Job> &J, bool th) {
                  auto cs = iface_configs();
                  for (size_t i = 0; i < cs.size(); i++) {
                    int n = (int)iface_ops(cs[i]).size();
                    for (int k = 0; k < n; k++)
                      J.push_back({fmt("ops/%s/%d", cs[i].name.c_str(), k), [=] {
                        Mem e;
                        e.c = cs[i];
                        e.ops = iface_ops(cs[i]);
                        e.depth = th ? 4 : 3;
                        e.fixed = k;
                        sample(e.c.name + ": interface operations");
                        e.run();
                      }});
                  }
                  for (int k : {0, 2, 5}) { Config c = iface_configs()[k]; c.calib = true; J.push_back({"badconf/" + c.name, [=] { bad_configs(c); }}); }
                  for (auto &x : family(th)) {
                    bool pair = x.c.name.compare(0, 4, "pair") == 0;
                    if (!th && pair && (x.c.soil[0] * 7 + x.c.soil[1]) % 3) continue;
                    Case y = x;
                    bool deep = y.a.name == "std" && !y.c.sft;
                    if (!th) y.depth = deep ? 3 : pair || y.a.name == "edge" || y.c.sft ? std::min(2, y.depth) : std::min(1, y.depth);
                    else y.depth = deep ? 4 : std::min(3, y.depth);
                    J.push_back({"forcing/" + y.c.name + "/" + y.a.name, [=] {
                      Mem e;
                      e.c = y.c;
                      for (size_t k = 0; k < y.a.s.size(); k++) {
                        std::vector<double> T;
                        for (double z : y.c.soil_z) T.push_back(frost(y.frost + (int)k, z));
                        e.ops.push_back(forcing(y.a.s[k], T));
                      }
                      for (auto &s : y.warm) e.warm.push_back(forcing(s));
                      e.depth = y.depth;
                      sample(e.c.name + " alphabet " + y.a.name);
                      e.run();
                    }});
                  }
                },
                "every history is executed on an address- and undefined-behaviour-sanitized build; non-trivial: nodes at which fronts beyond the layer boundaries exist",
                {"finalised_histories_with_leak_check", "mutated_configurations", "mutated_configurations_accepted"}});
