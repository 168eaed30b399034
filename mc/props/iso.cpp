// Independence of instances (C10): every interleaving of the operations of two or three instances. Reproducibility (C11): the same
// tree of histories under different memory contents, verbosity and interleaved reads.
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "family.hpp"
using namespace vp;
static void checked() { stats->checks++; }

static uint64_t bits(const Obs &o) {
  uint64_t h = 1469598103934665603ULL;
  auto mix = [&](double d) {
    if (d == 0) d = 0;
    uint64_t u;
    memcpy(&u, &d, 8);
    h ^= u + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 29;
  };
  for (double d : {o.time, o.precip, o.pet, o.aet, o.runoff, o.giuh, o.storage, o.q, o.infil, o.perc, o.gw, o.mb, (double)o.nwf}) mix(d);
  for (double d : o.th) mix(d);
  for (double d : o.z) mix(d);
  return h;
}
// numbers of the printed summary
static std::string summary_values(const std::string &s) {
  size_t at = s.rfind("Initial water");
  std::stringstream ss(at == std::string::npos ? s : s.substr(s.rfind('\n', at) == std::string::npos ? 0 : s.rfind('\n', at)));
  std::string l, r;
  while (std::getline(ss, l)) {
    size_t e = l.find('=');
    if (e == std::string::npos) continue;
    char *end = nullptr;
    double v = strtod(l.c_str() + e + 1, &end);
    if (end == l.c_str() + e + 1) continue;
    r += l.substr(0, e) + fmt("=%.10g;", v + 0.0);
  }
  return r;
}
static void quiet() {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 2);
  close(n);
}

// ------------------------------------------------------------------ C10
struct Inst { Config c; std::vector<double> T; std::map<std::string, std::vector<double>> calib; };
struct Program { const char *name; std::vector<Sym> s; };
static const std::vector<Program> PROGS = {
    {"wet", {{"storm", 50, 0.1, 2}, {"pet", 0, 0.5, 6}, {"drz", 1, 0.2, 3}, {"storm", 80, 0, 2}, {"rain", 6, 0.2, 2}}},
    {"dry", {{"drz", 1, 0.3, 2}, {"hot", 0, 0.8, 24}, {"rain", 9, 0.1, 2}, {"hot", 0, 0.8, 12}, {"storm", 60, 0, 1}}},
    {"mix", {{"pet", 0, 0.4, 3}, {"rain", 7, 0, 3}, {"storm", 70, 0.2, 1}, {"dry", 0, 0, 2}, {"drz", 2, 0.1, 4}}}};

static std::vector<Inst> instances() {
  std::vector<Inst> v;
  auto add = [&](Config c, const char *n) { Inst i; c.name = n; i.c = c; v.push_back(i); };
  Config phil = make(COLUMNS[0], MODES[0], 2000), bush = make(COLUMNS[1], MODES[1], 500);
  add(phil, "phil");
  add(bush, "bush");
  { Config c = phil; c.soils = SOILS; for (auto &s : c.soils) { s.te *= 0.93; s.ks *= 3; s.alpha *= 1.3; s.n = 1 + (s.n - 1) * 1.1; s.tr *= 0.9; } add(c, "phil_other_table"); }
  { Config c = phil; c.wp = 9000; c.fc = 150; add(c, "phil_other_wp"); }
  { Config c = phil; c.pond_max = 2; c.closed = true; c.adaptive = false; c.timestep_s = 900; c.forcing_s = 1800; add(c, "phil_pond_closed"); }
  { Config c = phil; c.sft = true; c.soil_z = {10, 44, 100, 175, 200}; add(c, "phil_frozen"); v.back().T = {272.9, 272.95, 273.05, 273.1, 273.3}; }
  { Config c = phil; c.calib = true; add(c, "phil_calib"); v.back().calib = {{"hydraulic_conductivity", {2.0, 0.5, 1.0}}, {"smcmax", {0.42, 0.45, 0.44}}, {"ponded_depth_max", {1.0}}, {"field_capacity", {200}}}; }
  { Config c = phil; c.soil[1] = 0; add(c, "phil_nosoil"); }
  { Config c = phil; c.giuh = {1.0}; add(c, "phil_giuh1"); }
  { Config c = phil; c.giuh = {0.05, 0.1, 0.2, 0.2, 0.15, 0.1, 0.1, 0.05, 0.05}; c.forcing_s = 7200; add(c, "phil_giuh9"); }
  { Config c = make(COLUMNS[2], MODES[5], 100); add(c, "silt1"); }
  { Config c = make(COLUMNS[11], MODES[0], 8000); add(c, "five"); }
  { Config c = phil; c.verbosity = "high"; add(c, "phil_verbose"); }
  { Config c = phil; c.endtime_h = 4; add(c, "phil_short"); }
  // one key changed, everything else (the soil file included) the same
  { Config c = phil; c.max_types = 13; add(c, "phil_max13"); }
  { Config c = phil; c.psi0 = 700; add(c, "phil_psi"); }
  { Config c = phil; c.thick = {20, 131, 60}; add(c, "phil_thick"); }
  { Config c = phil; c.soil = {15, 13, 14}; add(c, "phil_soils"); }
  { Config c = phil; c.wp = 5000; add(c, "phil_wp"); }
  return v;
}
// with shared_path every instance is initialised from the same file names, rewritten just before
static bool shared_path = false;
static std::string overwrite(const std::string &name, const std::string &t) {
  std::string p = scratch() + "/" + name;
  FILE *f = fopen(p.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write\n"); _exit(2); }
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
  return p;
}
static std::string config_of(const Config &c) {
  if (!shared_path) return write_config(c);
  std::ifstream in(write_soils(c.soils.empty() ? SOILS : c.soils));
  std::stringstream t;
  t << in.rdbuf();
  std::string soils = overwrite(fmt("shared_%d.dat", (int)getpid()), t.str());
  return overwrite(fmt("shared_%d.txt", (int)getpid()), c.text(soils));
}
// operation k of an instance: 0 initialise, 1..n forcing symbols, n+1 finalise
static uint64_t do_op(Model &m, const Inst &in, const Program &p, int k, int n, std::string *note = nullptr) {
  if (k == 0) {
    int r = m.init(config_of(in.c));
    if (r != OK) fail("initialisation of %s ended with %s (%s)", in.c.name.c_str(), outcome_name(r), last_outcome_detail.c_str());
    for (auto &kv : in.calib) {
      auto x = kv.second;
      if ((r = m.call([&] { m.b->SetValue(kv.first, x.data()); })) != OK) fail("SetValue(%s) ended with %s", kv.first.c_str(), outcome_name(r));
    }
    return 0;
  }
  if (k == n + 1) {
    std::string s;
    int r = m.finalize(&s);
    if (r != OK) fail("Finalize of %s ended with %s (%s)", in.c.name.c_str(), outcome_name(r), last_outcome_detail.c_str());
    s = summary_values(s);
    if (note) *note = s;
    return hash_str(s);
  }
  const Sym &s = p.s[k - 1];
  for (int j = 0; j < s.n; j++) {
    int r = m.step(s.p, s.pet, in.T.empty() ? nullptr : &in.T);
    if (r != OK) fail("Update of %s ended with %s (%s)", in.c.name.c_str(), outcome_name(r), last_outcome_detail.c_str());
  }
  return 0;
}
struct Solo { uint64_t h[16]; uint64_t sum; char text[1500]; int ok; };
// the instance alone, in a process that has never held another one
static Solo solo(const Inst &in, const Program &p, int n) {
  Solo *sh = (Solo *)mmap(nullptr, sizeof(Solo), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof *sh);
  write_config(in.c);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    Model m;
    for (int k = 0; k <= n + 1; k++) {
      std::string note;
      uint64_t r = do_op(m, in, p, k, n, &note);
      if (k <= n) sh->h[k] = bits(m.obs());
      else { sh->sum = r; snprintf(sh->text, sizeof sh->text, "%s", note.c_str()); }
    }
    sh->ok = 1;
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  Solo r = *sh;
  munmap(sh, sizeof(Solo));
  if (!r.ok) fail("the single run of %s did not finish (status %d)", in.c.name.c_str(), st);
  return r;
}
static void c10_case(const std::vector<Inst> &in, const std::vector<const Program *> &p, int n, bool shared = false) {
  quiet();
  shared_path = shared;
  int K = (int)in.size();
  std::vector<Solo> ref;
  for (int i = 0; i < K; i++) ref.push_back(solo(in[i], *p[i], n));
  std::vector<int> order;
  std::vector<int> left(K, n + 2);
  uint64_t seed = hash_str(ctx->job);
  std::function<void()> rec = [&] {
    bool any = false;
    for (int i = 0; i < K; i++) {
      if (!left[i]) continue;
      any = true;
      left[i]--;
      order.push_back(i);
      rec();
      order.pop_back();
      left[i]++;
    }
    if (any) return;
    // execute this interleaving
    std::vector<Model> m(K);
    std::vector<int> pos(K, -1);
    trail_reset();
    for (int i = 0; i < K; i++) trail(fmt("instance %d: config %s file %s program %s", i, in[i].c.name.c_str(), write_config(in[i].c).c_str(), p[i]->name));
    uint64_t st = seed;
    for (int i : order) {
      pos[i]++;
      const int k = pos[i];
      trail(k == 0 ? fmt("%d: Initialize", i) : k == n + 1 ? fmt("%d: Finalize", i) : fmt("%d: %s", i, p[i]->s[k - 1].name));
      std::string note;
      uint64_t r = do_op(m[i], in[i], *p[i], k, n, &note);
      stats->steps_unique++;
      st = seed;
      for (int q : pos) st = st * 1000003 + (uint64_t)(q + 2);
      note_state(st);
      checked();
      if (k == n + 1 && r != ref[i].sum) fail("instance %d (%s): summary '%s', alone '%s'", i, in[i].c.name.c_str(), note.c_str(), ref[i].text);
      for (int j = 0; j < K; j++) {
        if (pos[j] < 0 || pos[j] > n) continue;
        Obs o = m[j].obs();
        checked();
        if (j != i) stats->nontrivial++;
        if (bits(o) != ref[j].h[pos[j]])
          fail("instance %d (%s) after its operation %d differs from its run alone: %s", j, in[j].c.name.c_str(), pos[j], show(o).c_str());
      }
    }
    stats->sequences++;
  };
  sample(ctx->job + fmt(": all interleavings of %d instances with %d operations each", K, n + 2));
  rec();
}
static Reg r10({"C10", [](std::vector<Job> &J, bool th) {
                  auto I = instances();
                  int n = (int)I.size();
                  for (int a = 0; a < n; a++)
                    for (int b = 0; b < n; b++) {
                      bool verbose = I[a].c.verbosity != "none" || I[b].c.verbosity != "none";
                      for (int q = 0; q < (th ? 3 : 1); q++) {
                        int pa = (a + b + q) % 3, pb = (a + 2 * b + q + 1) % 3, ns = verbose ? (th ? 3 : 1) : th ? 5 : 3;
                        J.push_back({fmt("pair/%s+%s/%s+%s/%d", I[a].c.name.c_str(), I[b].c.name.c_str(), PROGS[pa].name, PROGS[pb].name, ns),
                                     [=] { c10_case({I[a], I[b]}, {&PROGS[pa], &PROGS[pb]}, ns); }});
                        if (a != b && !verbose) J.push_back({fmt("files/%s+%s/%s+%s/%d", I[a].c.name.c_str(), I[b].c.name.c_str(), PROGS[pa].name, PROGS[pb].name, th ? 3 : 1),
                                     [=] { c10_case({I[a], I[b]}, {&PROGS[pa], &PROGS[pb]}, th ? 3 : 1, true); }});
                      }
                    }
                  for (int a = 0; a < n; a++) {
                    int b = (a + 3) % n, c = (a + 7) % n;
                    bool verbose = I[a].c.verbosity != "none" || I[b].c.verbosity != "none" || I[c].c.verbosity != "none";
                    if (verbose && !th) continue;
                    J.push_back({fmt("triple/%s+%s+%s", I[a].c.name.c_str(), I[b].c.name.c_str(), I[c].c.name.c_str()),
                                 [=] { c10_case({I[a], I[b], I[c]}, {&PROGS[a % 3], &PROGS[(a + 1) % 3], &PROGS[(a + 2) % 3]}, verbose ? 1 : th ? 2 : 1); }});
                  }
                },
                "a check compares all outputs of one live instance, or a summary, with the same instance alone in its own process; non-trivial: the operation was one of another instance",
                {}});

// ------------------------------------------------------------------ C11
struct None {};
static unsigned char paintc = 0;
static void __attribute__((noinline)) paint() {
  volatile unsigned char buf[24 * 1024];
  memset((void *)buf, paintc, sizeof buf);
  asm volatile("" ::"r"(buf) : "memory");
}
static void read_everything(Model &m) {
  static const char *names[] = {"precipitation_rate", "potential_evapotranspiration_rate", "soil_temperature_profile", "soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts",
                                "soil_num_wetting_fronts", "precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage",
                                "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance", "smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha",
                                "hydraulic_conductivity", "field_capacity", "ponded_depth_max"};
  static double buf[4096];
  for (int k = 0; k < 2; k++)
    for (auto *n : names) {
      int r = m.call([&] {
        m.b->GetValue(n, buf);
        m.b->GetValuePtr(n);
        int id[1] = {0};
        m.b->GetValueAtIndices(n, buf, id, 1);
        m.b->GetVarGrid(n); m.b->GetVarType(n); m.b->GetVarUnits(n); m.b->GetVarItemsize(n); m.b->GetVarNbytes(n); m.b->GetVarLocation(n);
      });
      if (r != OK) fail("reading %s ended with %s (%s)", n, outcome_name(r), last_outcome_detail.c_str());
    }
  m.call([&] {
    m.b->GetComponentName(); m.b->GetInputVarNames(); m.b->GetOutputVarNames(); m.b->GetCurrentTime(); m.b->GetStartTime(); m.b->GetEndTime(); m.b->GetTimeUnits(); m.b->GetTimeStep();
    int sh[4];
    double d[4];
    for (int g = 0; g < 6; g++) { m.b->GetGridRank(g); m.b->GetGridSize(g); m.b->GetGridType(g); m.b->GetGridShape(g, sh); m.b->GetGridSpacing(g, d); m.b->GetGridOrigin(g, d); }
  });
  for (int k = 0; k < 3; k++) m.call([&] { if (k == 0) m.b->GetValue("nothing", buf); else if (k == 1) m.b->GetValuePtr(""); else { double d[4]; m.b->GetGridX(0, d); } });
}
struct Setting { const char *name; unsigned char fill, stack; const char *verbosity; bool reads; };
static void c11_case(const Config &c, const Alphabet &a, int depth, int fixed, const std::vector<Setting> &S) {
  quiet();
  std::vector<uint64_t> base;
  std::vector<std::string> sums;
  for (size_t k = 0; k < S.size(); k++) {
    const Setting &s = S[k];
    arena_fill(s.fill);
    paintc = s.stack;
    size_t at = 0;
    Explorer<None> e;
    e.c = c;
    e.c.verbosity = s.verbosity;
    e.a = a;
    e.depth = depth;
    if (fixed >= 0) e.fixed = {fixed};
    auto look = [&](Model &, const Obs &o) {
      uint64_t h = bits(o);
      if (k == 0) base.push_back(h);
      else {
        checked();
        if (at >= base.size() || base[at] != h) fail("with %s the outputs differ from those with %s in: %s", s.name, S[0].name, show(o).c_str());
        if (o.infil > 0 || o.aet > 0) stats->nontrivial++;
        at++;
      }
    };
    e.start = [&](None &, Model &m, const Obs &) { look(m, m.obs()); };
    std::vector<double> T(c.soil_z.size(), 272.98);
    e.advance = [&](Model &m, const Sym &y) {
      if (s.reads) read_everything(m);
      paint();
      return m.step(y.p, y.pet, T.empty() ? nullptr : &T);
    };
    e.step = [&](None &, Model &m, const StepInfo &, const Obs &, const Obs &o) { look(m, o); };
    size_t fin = 0;
    e.end = [&](None &, Model &m, const Obs &) {
      std::string t, l, cm;
      int r = m.finalize(&t);
      if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
      std::stringstream ss(t);
      while (std::getline(ss, l)) if (l.find(" cm") != std::string::npos && l.find('=') != std::string::npos) cm += l + "\n";
      if (k == 0) sums.push_back(cm);
      else {
        checked();
        stats->aux[0]++;
        if (fin >= sums.size() || sums[fin] != cm) fail("with %s the summary differs from the one with %s: %s", s.name, S[0].name, cm.c_str());
      }
      fin++;
    };
    trail_reset();
    e.run();
    if (k && at != base.size()) fail("with %s %d states were reached, with %s %d", s.name, (int)at, S[0].name, (int)base.size());
  }
  arena_fill(0x41);
}
static Reg r11({"C11", [](std::vector<Job> &J, bool th) {
                  static const std::vector<Setting> MEM = {{"memory 0x41", 0x41, 0x00, "none", false}, {"memory 0x00", 0x00, 0xFF, "none", false}, {"memory 0xFF", 0xFF, 0x5A, "none", false},
                                                           {"memory 0x7F and all variables read before every Update", 0x7F, 0x7F, "none", true}};
                  static const std::vector<Setting> VERB = {{"verbosity none", 0x41, 0, "none", false}, {"verbosity low", 0x41, 0, "low", false}, {"verbosity high", 0x41, 0, "high", false}};
                  const double PSI[] = {2000, 100, 8000};
                  for (size_t i = 0; i < COLUMNS.size(); i++)
                    for (size_t j = 0; j < MODES.size(); j++) {
                      Config c = make(COLUMNS[i], MODES[j], PSI[(i + j) % 3]);
                      if ((i + j) % 4 == 1) { c.sft = true; for (int l = 1; l <= c.nl(); l++) c.soil_z.push_back(c.bot(l)); c.name += "/sft"; }
                      if ((i + j) % 4 == 2) { c.calib = true; c.name += "/calib"; }
                      if ((i + j) % 16 == 7) { c.soil[0] = 99; c.name += "/nosoil"; }
                      if (!th) {
                        J.push_back({"mem/" + c.name, [=] { c11_case(c, STD, 3, -1, MEM); }});
                        if ((i + j) % 2 == 0) J.push_back({"verb/" + c.name, [=] { c11_case(c, Alphabet{"v", {{"pet", 0, 0.5, 6}, {"drz", 1, 0.1, 2}, {"storm", 60, 0, 2}}}, 2, -1, VERB); }});
                      } else {
                        for (int f = 0; f < (int)STD.s.size(); f++) J.push_back({"mem/" + c.name + fmt("/%d", f), [=] { c11_case(c, STD, 4, f, MEM); }});
                        for (int f = 0; f < (int)WIDE.s.size(); f++) J.push_back({"memw/" + c.name + fmt("/%d", f), [=] { c11_case(c, WIDE, 4, f, MEM); }});
                        J.push_back({"verb/" + c.name, [=] { c11_case(c, Alphabet{"v", {{"pet", 0, 0.5, 6}, {"drz", 1, 0.1, 2}, {"rain", 8, 0.1, 1}, {"storm", 60, 0, 2}}}, 3, -1, VERB); }});
                      }
                    }
                },
                "a check compares all outputs after one Update bit by bit with the same step of the same history under other memory contents, verbosity or reads; non-trivial: water moved in that step; the summary of every finalised history is compared as well",
                {"summaries_compared"}});
