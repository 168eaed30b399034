#include "vp.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <typeinfo>

namespace vp {

const std::vector<Soil> SOILS = {
    {"Clay", 0.1, 0.46, 0.01, 1.25, 0.612},        {"Clay-loam", 0.08, 0.44, 0.02, 1.42, 0.3348},
    {"Loam", 0.06, 0.4, 0.01, 1.47, 0.504},        {"Loamy-sand", 0.05, 0.39, 0.03, 1.75, 4.32},
    {"Sand", 0.05, 0.38, 0.04, 3.18, 26.64},       {"Sandy-clay", 0.12, 0.39, 0.03, 1.21, 0.468},
    {"Sandy-clay-loam", 0.06, 0.38, 0.02, 1.33, 0.54}, {"Sandy-loam", 0.04, 0.39, 0.03, 1.45, 1.584},
    {"Silt", 0.05, 0.49, 0.01, 1.68, 1.836},       {"Silty-clay", 0.11, 0.48, 0.02, 1.32, 0.432},
    {"Silty-clay-loam", 0.09, 0.48, 0.01, 1.52, 0.468}, {"Silt-loam", 0.07, 0.44, 0.01, 1.66, 0.756},
    {"P-1", 0.0648, 0.4513, 0.0031297, 1.6858, 0.45}, {"P-2", 0.0831, 0.4773, 0.0083272, 1.299, 0.07},
    {"P-3", 0.0668, 0.4617, 0.0037454, 1.6151, 0.45}, {"B-1", 0.0649, 0.4481, 0.009567, 1.3579, 0.07},
    {"B-2", 0.0672, 0.4760, 0.005288, 1.5276, 0.02}, {"B-3", 0.0823, 0.4782, 0.004467, 1.4585, 0.20}};

std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- configuration
static std::string num(double v) { return fmt("%.17g", v); }
template <class T> static std::string joinv(const std::vector<T> &v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]);
  return s;
}
std::vector<std::string> Config::lines(const std::string &soilfile) const {
  std::vector<std::string> l;
  l.push_back("verbosity=" + verbosity);
  l.push_back("forcing_file=none.csv");
  l.push_back("soil_params_file=" + soilfile);
  l.push_back("layer_thickness=" + joinv(thick) + "[cm]");
  l.push_back("initial_psi=" + num(psi0) + "[cm]");
  l.push_back("timestep=" + num(timestep_s) + "[sec]");
  l.push_back("endtime=" + num(endtime_h) + "[hr]");
  l.push_back("forcing_resolution=" + num(forcing_s) + "[sec]");
  l.push_back("ponded_depth_max=" + num(pond_max) + "[cm]");
  l.push_back(std::string("use_closed_form_G=") + (closed ? "true" : "false"));
  l.push_back("layer_soil_type=" + joinv(soil));
  if (max_types >= 0) l.push_back(fmt("max_valid_soil_types=%d", max_types));
  l.push_back("wilting_point_psi=" + num(wp) + "[cm]");
  l.push_back("field_capacity_psi=" + num(fc) + "[cm]");
  l.push_back("giuh_ordinates=" + joinv(giuh));
  if (sft) {
    l.push_back("sft_coupled=true");
    l.push_back("soil_z=" + joinv(soil_z) + "[cm]");
  }
  if (calib) l.push_back("calib_params=true");
  l.push_back(std::string("adaptive_timestep=") + (adaptive ? "true" : "false"));
  for (auto &e : extra) l.push_back(e);
  return l;
}
std::string Config::text(const std::string &soilfile) const {
  std::string s;
  for (auto &x : lines(soilfile)) s += x + "\n";
  return s;
}
std::string scratch() {
  static std::string d;
  if (d.empty()) {
    const char *e = getenv("VP_SCRATCH");
    if (!e) { fprintf(stderr, "VP_SCRATCH not set\n"); _exit(2); }
    d = e;
  }
  return d;
}
static std::string put(const std::string &name, const std::string &text) {
  std::string p = scratch() + "/" + name, t = p + fmt(".%d", (int)getpid());
  struct stat st;
  if (stat(p.c_str(), &st) == 0) return p;
  FILE *f = fopen(t.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", t.c_str()); _exit(2); }
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
  rename(t.c_str(), p.c_str());
  return p;
}
uint64_t hash_str(const std::string &s, uint64_t h) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
std::string write_soils(const std::vector<Soil> &s, const std::string &tag) {
  std::string t = "\"Texture\ttheta_r\ttheta_e\talpha(cm^-1)\tn\tKs(cm/h)\"\n";
  for (size_t i = 0; i < s.size(); i++)
    t += fmt("\"%s\"\t%.17g\t%.17g\t%.17g\t%.17g\t%.17g\n", s[i].name, s[i].tr, s[i].te, s[i].alpha, s[i].n, s[i].ks);
  return put(fmt("soil_%s%016lx.dat", tag.c_str(), hash_str(t)), t);
}
std::string write_text(const std::string &t, const std::string &tag) {
  return put(fmt("cfg_%s%016lx.txt", tag.c_str(), hash_str(t)), t);
}
std::string write_config(const Config &c, const std::string &tag) {
  return write_text(c.text(write_soils(c.soils.empty() ? SOILS : c.soils)), tag);
}

// ---------------------------------------------------------------- guards
std::string last_outcome_detail;
static sigjmp_buf *g_env = nullptr;
static char g_detail[1024];
const char *outcome_name(int o) {
  static const char *n[] = {"ok", "abort()", "failed assertion", "exit()", "exception", "hang"};
  return n[o];
}
static void on_alarm(int) {
  if (g_env) {
    snprintf(g_detail, sizeof g_detail, "CPU limit exceeded inside a single call");
    siglongjmp(*g_env, HANG);
  }
}
int guarded(const std::function<void()> &f, double cpu) {
  sigjmp_buf env, *saved = g_env;
  struct itimerval tv = {{0, 0}, {(long)cpu, (long)((cpu - (long)cpu) * 1e6)}}, off = {{0, 0}, {0, 0}};
  static bool installed = false;
  if (!installed) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_alarm;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGVTALRM, &sa, nullptr);
    installed = true;
  }
  g_detail[0] = 0;
  int r = sigsetjmp(env, 0);
  if (r == 0) {
    g_env = &env;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    try {
      f();
    } catch (FailEx &) {
      setitimer(ITIMER_VIRTUAL, &off, nullptr);
      g_env = saved;
      throw;
    } catch (std::exception &e) {
      snprintf(g_detail, sizeof g_detail, "%s: %s", typeid(e).name(), e.what());
      r = EXCEPTION;
    } catch (...) {
      snprintf(g_detail, sizeof g_detail, "unknown exception");
      r = EXCEPTION;
    }
  }
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  g_env = saved;
  last_outcome_detail = g_detail;
  return r;
}

// ---------------------------------------------------------------- model driver
Model::~Model() {
  if (b && live) {
    std::string s;
    finalize(&s);
  } else if (b) {
    b = nullptr;                 // state unknown after a failure: leak
  }
}
int Model::init(const std::string &path) {
  cfg_path = path;
  arena_on(true);
  int r = guarded([&] {
    b = new BmiLGAR();
    b->Initialize(path);
  });
  arena_on(false);
  live = (r == OK);
  return r;
}
int Model::call(const std::function<void()> &f) {
  arena_on(true);
  int r = guarded(f);
  arena_on(false);
  return r;
}
int Model::step(double p, double pet, const std::vector<double> *temps) {
  arena_on(true);
  int r = guarded([&] {
    b->SetValue("precipitation_rate", &p);
    b->SetValue("potential_evapotranspiration_rate", &pet);
    if (temps) b->SetValue("soil_temperature_profile", (void *)temps->data());
    b->Update();
  });
  arena_on(false);
  if (stats) stats->updates++;
  if (r != OK) live = false;
  return r;
}
Obs Model::obs_state_only() {
  Obs o;
  int r = guarded([&] { read_state(o); });
  if (r != OK) fail("reading the outputs ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
  return o;
}
void Model::read_state(Obs &o) {
  o.time = b->GetCurrentTime();
  b->GetValue("soil_num_wetting_fronts", &o.nwf);
  if (o.nwf < 0 || o.nwf > 100000) fail("reported number of wetting fronts is %d", o.nwf);
  o.th.resize(o.nwf);
  o.z.resize(o.nwf);
  if (o.nwf) {
    b->GetValue("soil_moisture_wetting_fronts", o.th.data());
    b->GetValue("soil_depth_wetting_fronts", o.z.data());
  }
  if (has_internals()) {
    if (!internal_fronts(b, o.f)) fail("wetting front list does not terminate");
    o.volon_cm = internal_pond(b);
  } else {
    double lb[64];
    int nl = b->GetVarNbytes("soil_depth_layers") / (int)sizeof(double);
    if (nl < 1 || nl > 64) fail("number of layers is %d", nl);
    b->GetValue("soil_depth_layers", lb);
    // Which of several fronts on one boundary ends the layer: at the bottom of the domain the last one; elsewhere the first that is exactly
    // there, except that a new front may sit on the bottom of the top layer. The ones after it belong to the next layer.
    auto near_ = [&](int i, int l) { return fabs(o.z[i] - lb[l - 1]) <= 1e-12 * lb[l - 1]; };
    for (int i = 0, l = 1; i < o.nwf;) {
      while (l < nl && o.z[i] > lb[l - 1] && !near_(i, l)) l++;
      if (!near_(i, l)) { o.f.push_back({o.z[i] * 100, o.th[i], NAN, NAN, NAN, l, i + 1, false}); i++; continue; }
      int e = i, bot = i;
      while (e < o.nwf && near_(e, l)) e++;
      if (l == nl) bot = e - 1;
      else {
        while (bot + 1 < e && o.z[bot] < lb[l - 1]) bot++;
        if (bot == 0 && l == 1 && e > 1 && o.th[0] >= o.th[1]) bot = 1;
      }
      for (; i < e; i++)
        o.f.push_back({i == bot ? lb[l - 1] * 100 : o.z[i] * 100, o.th[i], NAN, NAN, NAN, i <= bot ? l : l + 1, i + 1, i == bot});
      if (l < nl) l++;
    }
  }
}
Obs Model::obs() {
  Obs o;
  int r = guarded([&] { read_state(o); read_fluxes(o); });
  if (r != OK) fail("reading the outputs ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
  return o;
}
void Model::read_fluxes(Obs &o) {
  o.precip = getd("precipitation");
  o.pet = getd("potential_evapotranspiration");
  o.aet = getd("actual_evapotranspiration");
  o.runoff = getd("surface_runoff");
  o.giuh = getd("giuh_runoff");
  o.storage = getd("soil_storage");
  o.q = getd("total_discharge");
  o.infil = getd("infiltration");
  o.perc = getd("percolation");
  o.gw = getd("groundwater_to_stream_recharge");
  o.mb = getd("mass_balance");
}
int Model::finalize(std::string *summary) {
  fflush(stdout);
  static int mfd = -1;
  int saved = -1;
  if (summary) {
    if (mfd < 0) mfd = memfd_create("summary", 0);
    if (ftruncate(mfd, 0)) {}
    lseek(mfd, 0, SEEK_SET);
    saved = dup(1);
    dup2(mfd, 1);
  }
  arena_on(true);
  int r = guarded([&] {
    b->Finalize();
    delete b;
  });
  arena_on(false);
  b = nullptr;
  live = false;
  fflush(stdout);
  if (summary) {
    dup2(saved, 1);
    close(saved);
    off_t n = lseek(mfd, 0, SEEK_END);
    summary->resize(n);
    lseek(mfd, 0, SEEK_SET);
    if (read(mfd, &(*summary)[0], n) != n) summary->clear();
  }
  return r;
}
void Model::drop() { b = nullptr; live = false; }

static bool eqd(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }
bool bitwise_equal(const Obs &a, const Obs &b, std::string *why) {
#define C(x) if (!eqd(a.x, b.x)) { if (why) *why = fmt(#x ": %.17g vs %.17g", a.x, b.x); return false; }
  C(time) C(precip) C(pet) C(aet) C(runoff) C(giuh) C(storage) C(q) C(infil) C(perc) C(gw) C(mb)
#undef C
  if (a.nwf != b.nwf) { if (why) *why = fmt("number of fronts %d vs %d", a.nwf, b.nwf); return false; }
  for (int i = 0; i < a.nwf; i++)
    if (!eqd(a.th[i], b.th[i]) || !eqd(a.z[i], b.z[i])) {
      if (why) *why = fmt("front %d: (%.17g,%.17g) vs (%.17g,%.17g)", i + 1, a.z[i], a.th[i], b.z[i], b.th[i]);
      return false;
    }
  return true;
}
std::string show(const Obs &o) {
  std::string s = fmt("t=%g P=%.6g PET=%.6g AET=%.6g run=%.6g giuh=%.6g S=%.9g inf=%.6g perc=%.6g mb=%.3g pond=%.6gcm fronts=",
                      o.time, o.precip, o.pet, o.aet, o.runoff, o.giuh, o.storage, o.infil, o.perc, o.mb, o.volon_cm);
  for (auto &f : o.f) s += fmt("(%.6g,%.9g,L%d,#%d%s,psi%.6g,K%.4g,v%.3g)", f.depth, f.theta, f.layer, f.num, f.bottom ? "b" : "", f.psi, f.K, f.dzdt);
  return s;
}
double retention_theta(const Soil &s, double psi) {
  double m = 1 - 1 / s.n;
  return s.tr + (s.te - s.tr) * pow(1 + pow(s.alpha * psi, s.n), -m);
}
double soil_K(const Soil &s, double theta, double factor) {
  double m = 1 - 1 / s.n, Se = (theta - s.tr) / (s.te - s.tr);
  double x = 1 - pow(1 - pow(Se, 1 / m), m);
  return factor * s.ks * sqrt(Se) * x * x;
}
double storage_of(const std::vector<Front> &f, const Config &c) {
  // integral of the step profile: the moisture between two consecutive fronts is that of the lower one
  double s = 0, top = 0;
  for (auto &w : f) { s += w.theta * (w.depth - top); top = w.depth; }
  (void)c;
  return s;
}
double max_storage(const Config &c) {
  double s = 0;
  for (int l = 1; l <= c.nl(); l++) s += c.S(l).te * c.thick[l - 1];
  return s;
}

// ---------------------------------------------------------------- context, shared memory
Ctx *ctx = nullptr;
Stats *stats = nullptr;
struct JobSlot {
  std::atomic<int> status;            // 0 pending 1 running 2 ok 3 violation 4 internal
  char msg[3000];
  char trail[6000];
  char known[1500];
  char samp[600];
};
static JobSlot *slots = nullptr;
static int cur_slot = -1;
static std::atomic<uint64_t> *table = nullptr;
static std::atomic<uint64_t> *table_count = nullptr;
static const uint64_t TSIZE = 1ULL << 23;

void note_state(uint64_t h) {
  if (!table) return;
  if (h == 0) h = 1;
  uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> (64 - 23);
  for (int k = 0; k < 64; k++, i = (i + 1) & (TSIZE - 1)) {
    uint64_t v = table[i].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      if (table[i].compare_exchange_strong(v, h)) { table_count[0]++; return; }
      if (v == h) return;
    }
  }
  table_count[1]++;                   // saturated neighbourhood: not counted
}
uint64_t hash_obs(const Obs &o, uint64_t h) {
  auto mix = [&](double d) {
    int64_t q = (int64_t)llround(d * 1e9);
    h ^= (uint64_t)q + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
  };
  for (auto &f : o.f) { mix(f.depth); mix(f.theta); mix(f.layer); }
  mix(o.volon_cm);
  return h;
}
static void put_trail() {
  if (!slots || cur_slot < 0 || !ctx) return;
  std::string t;
  for (auto &x : ctx->trail) t += x + "\n";
  if (t.size() > sizeof(slots[0].trail) - 1) t = "..." + t.substr(t.size() - (sizeof(slots[0].trail) - 8));
  snprintf(slots[cur_slot].trail, sizeof slots[0].trail, "%s", t.c_str());
}
void trail(const std::string &s) {
  ctx->trail.push_back(s);
  put_trail();
}
void trail_reset() { ctx->trail.clear(); }
void fail(const char *f, ...) {
  char buf[2900];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (ctx) { ctx->has_fail = true; ctx->fail_msg = buf; }
  if (slots && cur_slot >= 0) {
    snprintf(slots[cur_slot].msg, sizeof slots[0].msg, "%s", buf);
    put_trail();
    slots[cur_slot].status = 3;
    _exit(3);                          // the job ends with its first violation
  }
  throw FailEx();
}
static std::set<std::string> g_known;
bool is_known(const std::string &id) { return g_known.count(id) > 0; }
void known(const char *id, const char *f, ...) {
  char buf[700];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  if (!is_known(id)) fail("%s", buf);
  if (slots && cur_slot >= 0 && !strstr(slots[cur_slot].known, id)) {
    size_t n = strlen(slots[cur_slot].known);
    snprintf(slots[cur_slot].known + n, sizeof(slots[0].known) - n, "%s\t%s\n", id, buf);
  }
}
void sample(const std::string &s) {
  if (slots && cur_slot >= 0 && !slots[cur_slot].samp[0]) snprintf(slots[cur_slot].samp, sizeof slots[0].samp, "%s", s.c_str());
}
std::vector<Property> &registry() { static std::vector<Property> r; return r; }

// ---------------------------------------------------------------- explorer
bool tree_mode() { static bool t = arena_available() && !getenv("VP_LINEAR"); return t; }
void trail_pop(size_t n) { ctx->trail.resize(n); }
}  // namespace vp

// ---------------------------------------------------------------- interposed process terminators
extern "C" {
void __real_abort(void) __attribute__((noreturn));
void __real_exit(int) __attribute__((noreturn));
void __real___assert_fail(const char *, const char *, unsigned, const char *) __attribute__((noreturn));
void __wrap_abort(void) {
  using namespace vp;
  if (g_env) { snprintf(g_detail, sizeof g_detail, "abort() called"); siglongjmp(*g_env, ABORT); }
  __real_abort();
}
void __wrap_exit(int c) {
  using namespace vp;
  if (g_env) { snprintf(g_detail, sizeof g_detail, "exit(%d) called", c); siglongjmp(*g_env, EXIT); }
  __real_exit(c);
}
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  using namespace vp;
  if (g_env) { snprintf(g_detail, sizeof g_detail, "%s:%u: %s: %s", f, l, fn, e); siglongjmp(*g_env, ASSERT); }
  __real___assert_fail(e, f, l, fn);
}
}

// ---------------------------------------------------------------- main: job pool
using namespace vp;
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}
static void child(const Job &j, int idx, const std::string &errfile) {
  cur_slot = idx;
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) dup2(e, 2); else dup2(n, 2);
  static Ctx c;
  c.job = j.name;
  ctx = &c;
  slots[idx].status = 1;
  try {
    j.run();
  } catch (FailEx &) {
    _exit(3);
  } catch (std::exception &ex) {
    snprintf(slots[idx].msg, sizeof slots[idx].msg, "exception from the model: %s", ex.what());
    put_trail();
    slots[idx].status = 3;
    _exit(3);
  }
  slots[idx].status = 2;
  fflush(nullptr);
  _exit(0);
}
static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
  return p;
}
int main(int argc, char **argv) {
  std::string prop, out, only;
  bool thorough = false, list = false;
  int procs = 8, maxviol = 3;
  double budget = 800, joblimit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") prop = nx();
    else if (a == "--out") out = nx();
    else if (a == "--only") only = nx();
    else if (a == "--thorough") thorough = true;
    else if (a == "--list") list = true;
    else if (a == "--procs") procs = atoi(nx().c_str());
    else if (a == "--maxviol") maxviol = atoi(nx().c_str());
    else if (a == "--budget") budget = atof(nx().c_str());
    else if (a == "--joblimit") joblimit = atof(nx().c_str());
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  if (const char *k = getenv("VP_KNOWN")) {
    std::stringstream ss(k);
    std::string x;
    while (std::getline(ss, x, ',')) if (!x.empty()) g_known.insert(x);
  }
  Property *P = nullptr;
  for (auto &p : registry()) if (prop == p.id) P = &p;
  if (!P) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
  stats = new (shm(sizeof(Stats))) Stats();
  table = (std::atomic<uint64_t> *)shm(TSIZE * 8);
  table_count = (std::atomic<uint64_t> *)shm(64);
  std::vector<Job> jobs;
  P->enumerate(jobs, thorough);
  if (!only.empty()) {
    std::vector<Job> f;
    for (auto &j : jobs) if (j.name == only) f.push_back(j);
    jobs = f;
  }
  if (list) { for (auto &j : jobs) printf("%s\n", j.name.c_str()); return 0; }
  { std::set<std::string> names; for (auto &j : jobs) if (!names.insert(j.name).second) { fprintf(stderr, "duplicate job %s\n", j.name.c_str()); return 2; } }
  int n = (int)jobs.size();
  slots = (JobSlot *)shm(sizeof(JobSlot) * (size_t)(n + 1));
  double t0 = now();
  std::map<pid_t, std::pair<int, double>> running;
  int next = 0, done = 0, viol = 0, internal = 0, skipped = 0;
  std::vector<int> bad;
  fflush(nullptr);
  auto errf = [&](int i) { return scratch() + fmt("/err_%d", i); };
  while (next < n || !running.empty()) {
    while (next < n && (int)running.size() < procs && viol < maxviol) {
      if (now() - t0 > budget) break;
      pid_t p = fork();
      if (p < 0) { perror("fork"); break; }
      if (p == 0) child(jobs[next], next, errf(next));
      running[p] = {next, now()};
      next++;
    }
    if (running.empty()) break;
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      for (auto &kv : running) if (now() - kv.second.second > joblimit) kill(kv.first, SIGKILL);
      continue;
    }
    if (!running.count(p)) continue;
    int i = running[p].first;
    double age = now() - running[p].second;
    running.erase(p);
    done++;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[i].status == 2;
    if (ok) { unlink(errf(i).c_str()); continue; }
    if (slots[i].status == 4) { internal++; bad.push_back(i); continue; }
    viol++;
    bad.push_back(i);
    if (slots[i].status != 3) {
      std::string d = WIFSIGNALED(st) ? fmt("killed by signal %d%s", WTERMSIG(st), age > joblimit ? " (time limit)" : "") : fmt("exit status %d", WEXITSTATUS(st));
      std::string head;
      if (FILE *f = fopen(errf(i).c_str(), "r")) {
        char line[400];
        int cnt = 0;
        while (cnt < 14 && fgets(line, sizeof line, f))
          if (strstr(line, "ERROR") || strstr(line, "runtime error") || strstr(line, "    #") || strstr(line, "leak") || strstr(line, "READ") || strstr(line, "WRITE")) { head += line; cnt++; }
        fclose(f);
      }
      snprintf(slots[i].msg, sizeof slots[i].msg, "the process running the history died: %s %s", d.c_str(), head.c_str());
      slots[i].status = 3;
    }
    unlink(errf(i).c_str());
  }
  skipped = n - done;
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!o) { perror("out"); return 2; }
  fprintf(o, "{\"property\":\"%s\",\"jobs\":%d,\"done\":%d,\"skipped\":%d,\"internal\":%d,\"wall\":%.3f,\n", P->id, n, done, skipped, internal, now() - t0);
  fprintf(o, "\"updates\":%lu,\"steps_unique\":%lu,\"sequences\":%lu,\"checks\":%lu,\"nontrivial\":%lu,\"states\":%lu,\"states_uncounted\":%lu,\n",
          stats->updates.load(), stats->steps_unique.load(), stats->sequences.load(), stats->checks.load(), stats->nontrivial.load(), table_count[0].load(), table_count[1].load());
  fprintf(o, "\"rule\":\"%s\",\"aux\":{", jesc(P->rule).c_str());
  for (size_t i = 0; i < P->aux_names.size(); i++) fprintf(o, "%s\"%s\":%lu", i ? "," : "", jesc(P->aux_names[i]).c_str(), stats->aux[i].load());
  fprintf(o, "},\n\"samples\":[");
  int ns = 0;
  for (int i = 0; i < n && ns < 3; i += std::max(1, n / 3)) {
    fprintf(o, "%s{\"job\":\"%s\",\"case\":\"%s\"}", ns ? "," : "", jesc(jobs[i].name).c_str(), jesc(slots[i].samp).c_str());
    ns++;
  }
  fprintf(o, "],\n\"known\":[");
  std::map<std::string, std::string> kn;
  for (int i = 0; i < n; i++) {
    std::stringstream ss(slots[i].known);
    std::string l;
    while (std::getline(ss, l)) { size_t t = l.find('\t'); if (t != std::string::npos && !kn.count(l.substr(0, t))) kn[l.substr(0, t)] = jobs[i].name + ": " + l.substr(t + 1); }
  }
  { int c = 0; for (auto &kv : kn) fprintf(o, "%s{\"id\":\"%s\",\"what\":\"%s\"}", c++ ? "," : "", jesc(kv.first).c_str(), jesc(kv.second).c_str()); }
  fprintf(o, "],\n\"bad\":[");
  for (size_t i = 0; i < bad.size(); i++)
    fprintf(o, "%s{\"job\":\"%s\",\"internal\":%s,\"msg\":\"%s\",\"trail\":\"%s\"}", i ? "," : "", jesc(jobs[bad[i]].name).c_str(),
            slots[bad[i]].status == 4 ? "true" : "false", jesc(slots[bad[i]].msg).c_str(), jesc(slots[bad[i]].trail).c_str());
  fprintf(o, "]}\n");
  if (o != stdout) fclose(o);
  return viol ? 1 : internal ? 2 : 0;
}
