// C18: the stand-alone program against in-process interface runs, over every forcing file up to the bound. The program is
// built from the working tree and executed in a scratch directory of its own.
#include "family.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
using namespace vp;
static void checked() { stats->checks++; }
static const char *const COLS[] = {"precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff", "soil_storage",
                                   "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance"};
struct Row { std::string label; double p, pet; };
struct Step { double v[11]; std::vector<Front> f; };
static std::map<std::string, double> summary_of(const std::string &s) {
  std::map<std::string, double> m;
  std::stringstream ss(s);
  std::string l;
  while (std::getline(ss, l)) {
    size_t e = l.find('=');
    if (e == std::string::npos || l.find(" cm") == std::string::npos) continue;
    std::string k = l.substr(0, e);
    while (!k.empty() && k.back() == ' ') k.pop_back();
    char *end = nullptr;
    double v = strtod(l.c_str() + e + 1, &end);
    if (end != l.c_str() + e + 1) m[k] = v;
  }
  return m;
}
static std::vector<std::string> lines_of(const std::string &path, const char *what) {
  std::ifstream f(path);
  if (!f) fail("the program did not write %s", what);
  std::vector<std::string> v;
  std::string l;
  while (std::getline(f, l)) v.push_back(l);
  return v;
}
static void put_file(const std::string &p, const std::string &t) {
  FILE *f = fopen(p.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(2); }
  fwrite(t.data(), 1, t.size(), f);
  fclose(f);
}
static std::string work() {
  static std::string d;
  if (d.empty()) {
    d = scratch() + fmt("/w%d", (int)getpid());
    mkdir(d.c_str(), 0700);
  }
  return d;
}
static int run_program(const std::string &cfg, std::string *text) {
  std::string d = work(), exe = getenv("VP_STANDALONE");
  unlink((d + "/data_variables.csv").c_str());
  unlink((d + "/data_layers.csv").c_str());
  pid_t p = vfork();
  if (p == 0) {
    if (chdir(d.c_str())) _exit(126);
    int o = open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_WRONLY);
    dup2(o, 1);
    dup2(n, 2);
    alarm(60);
    execl(exe.c_str(), exe.c_str(), cfg.c_str(), (char *)nullptr);
    _exit(127);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 126) { fprintf(stderr, "cannot run %s\n", exe.c_str()); _exit(2); }
  std::ifstream f(d + "/out.txt");
  std::stringstream ss;
  ss << f.rdbuf();
  *text = ss.str();
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// what the interface reports along the first n rows; cached by prefix
struct Expect { std::vector<Step> s; std::map<std::string, double> sum; };
static Expect expect(const std::string &cfg, const std::vector<Row> &rows, int n) {
  Expect e;
  Model m;
  int r = m.init(cfg);
  if (r != OK) fail("initialisation ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
  for (int i = 0; i < n; i++) {
    r = m.step(rows[i].p, rows[i].pet);
    if (r != OK) fail("Update ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
    Step s;
    for (int k = 0; k < 11; k++) s.v[k] = m.getd(COLS[k]);
    Obs o = m.obs();
    s.f = o.f;
    stats->steps_unique++;
    note_state(hash_obs(o, hash_str(cfg.substr(cfg.rfind('/')))));
    if (o.nwf > 1 && o.runoff + o.perc > 0) stats->nontrivial++;
    e.s.push_back(s);
  }
  std::string t;
  r = m.finalize(&t);
  if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
  e.sum = summary_of(t);
  return e;
}
static std::string cfg_for(const Config &c, const std::string &forcing, const std::string &endtime) {
  auto L = c.lines(write_soils(c.soils.empty() ? SOILS : c.soils));
  std::string s;
  for (auto &l : L) {
    if (l.compare(0, 13, "forcing_file=") == 0) l = "forcing_file=" + forcing;
    if (l.compare(0, 8, "endtime=") == 0) l = "endtime=" + endtime;
    s += l + "\n";
  }
  return s;
}
static void judge(const Config &c, const std::string &cfgpath, const std::vector<Row> &rows, int n) {
  Expect e = expect(cfgpath, rows, n);
  std::string text;
  int rc = run_program(cfgpath, &text);
  stats->sequences++;
  stats->aux[0]++;
  checked();
  if (rc) fail("the program ended with status %d", rc);
  auto V = lines_of(work() + "/data_variables.csv", "data_variables.csv"), W = lines_of(work() + "/data_layers.csv", "data_layers.csv");
  std::string head = "Time";
  for (auto k : COLS) head += std::string(",") + k;
  if (V.empty() || V[0] != head) fail("data_variables.csv has the header '%s'", V.empty() ? "" : V[0].c_str());
  if ((int)V.size() != n + 1) fail("data_variables.csv has %d rows for %d steps in the configured period", (int)V.size() - 1, n);
  if ((int)W.size() != 2 * n) fail("data_layers.csv has %d lines for %d steps in the configured period", (int)W.size(), n);
  for (int i = 0; i < n; i++) {
    const Step &s = e.s[i];
    std::string lab = rows[i].label;
    std::string l = V[i + 1];
    if (l.compare(0, lab.size() + 1, lab + ",")) fail("row %d of data_variables.csv is labelled '%s', the forcing row is '%s'", i, l.substr(0, l.find(',')).c_str(), lab.c_str());
    const char *p = l.c_str() + lab.size() + 1;
    for (int k = 0; k < 11; k++) {
      char *q = nullptr;
      double v = strtod(p, &q);
      if (q == p || (*q != (k < 10 ? ',' : 0))) fail("row %d of data_variables.csv does not have 11 numbers: '%s'", i, l.c_str());
      checked();
      if (!(fabs(v - s.v[k]) <= 1.5e-15 + 1e-15 * fabs(s.v[k]))) fail("row %d of data_variables.csv: %s is %.15f, the interface reports %.17g", i, COLS[k], v, s.v[k]);
      p = q + 1;
    }
    // profile
    std::string h = W[2 * i], want = fmt("# Timestep = %d, %s", i, lab.c_str());
    while (!h.empty() && h.back() == ' ') h.pop_back();
    if (h != want) fail("line %d of data_layers.csv is '%s', expected '%s'", 2 * i, h.c_str(), want.c_str());
    std::string w = W[2 * i + 1];
    std::vector<Front> f;
    const char *x = w.c_str();
    if (*x++ != '[') fail("step %d of data_layers.csv: '%s'", i, w.c_str());
    while (*x && *x != ']') {
      Front g{};
      int used = 0;
      if (sscanf(x, "(%lf,%lf,%d,%d,%lf)%n", &g.depth, &g.theta, &g.layer, &g.num, &g.psi, &used) != 5 || !used) fail("step %d of data_layers.csv: '%s'", i, w.c_str());
      f.push_back(g);
      x += used;
      if (*x == '|') x++;
    }
    checked();
    if (has_internals()) {
      if (f.size() != s.f.size()) fail("step %d of data_layers.csv has %d fronts, the model %d", i, (int)f.size(), (int)s.f.size());
      for (size_t k = 0; k < f.size(); k++) {
        auto near = [](double a, double b) { return fabs(a - b) <= 6e-7 + 1e-12 * fabs(b); };
        const Front &a = f[k], &b = s.f[k];
        if (!near(a.depth, b.depth * 10) || !near(a.theta, b.theta) || a.layer != b.layer || a.num != b.num || !near(a.psi, b.psi * 10))
          fail("step %d of data_layers.csv, front %d: (%.6f,%.6f,%d,%d,%.6f), the model has (%.8g mm,%.8g,%d,%d,%.8g mm)", i, (int)k + 1, a.depth, a.theta, a.layer, a.num, a.psi, b.depth * 10, b.theta, b.layer, b.num, b.psi * 10);
      }
    }
  }
  auto sum = summary_of(text);
  for (auto &kv : e.sum) {
    checked();
    if (!sum.count(kv.first)) fail("the program's summary has no '%s'", kv.first.c_str());
    if (!(fabs(sum[kv.first] - kv.second) <= 2e-10 + 1e-9 * fabs(kv.second))) fail("the program's summary says %s = %.10g cm, the interface run %.10g cm", kv.first.c_str(), sum[kv.first], kv.second);
  }
  if (e.sum.size() < 8) fail("the summary of the interface run has only %d entries", (int)e.sum.size());
  (void)c;
}
// forcing file text; style 1: no newline at the end, 2: blank line at the end, 3: further columns, 4: more digits
static std::string forcing_text(const std::vector<Row> &r, int style) {
  std::string t = "Time,P(mm/h),PET(mm/h)";
  if (style == 3) t += ",extra";
  t += "\n";
  for (size_t i = 0; i < r.size(); i++) {
    t += style == 4 ? fmt("%s,%.17g,%.17g", r[i].label.c_str(), r[i].p, r[i].pet) : fmt("%s,%g,%g", r[i].label.c_str(), r[i].p, r[i].pet);
    if (style == 3) t += ",9.5";
    if (style != 1 || i + 1 < r.size()) t += "\n";
  }
  if (style == 2) t += "\n";
  return t;
}
static const Sym RS[] = {{"dry", 0, 0.4, 1}, {"drz", 1.25, 0.1, 1}, {"rain", 12.5, 0, 1}, {"storm", 80, 0.2, 1}};
static void histories(const Config &c, int len, int first) {
  std::string fp = work() + "/forcing.csv", cp = work() + "/cfg.txt";
  std::vector<int> q(len, 0);
  q[0] = first;
  int cnt = 0;
  for (;;) {
    std::vector<Row> rows;
    int rep = c.forcing_s <= 3600 ? 6 : 3;
    for (int i = 0; i < len; i++)
      for (int j = 0; j < (i ? rep : 1); j++) rows.push_back({fmt("2016-10-%02d %02d:00:00", 1 + (int)rows.size() / 24, (int)rows.size() % 24), RS[q[i]].p, RS[q[i]].pet});
    if (cnt % 5 == 4) for (size_t i = 0; i < rows.size(); i++) { rows[i].p *= 1 + 1.2345678e-7 * (i % 7 + 1); rows[i].pet *= 1 + 2.3456789e-8 * (i % 5 + 1); }
    int n = (int)rows.size() - cnt % 3;                        // also periods that end before the forcing does
    put_file(fp, forcing_text(rows, cnt % 5));
    put_file(cp, cfg_for(c, cnt % 2 ? fp : "forcing.csv", fmt("%.17g[sec]", n * c.forcing_s)));
    trail_reset();
    std::string h;
    for (int x : q) h += std::string(" ") + RS[x].name;
    trail("config " + c.name + " forcing:" + h + fmt(", %d steps, file style %d", n, cnt % 5));
    judge(c, cp, rows, n);
    cnt++;
    int i = 1;
    while (i < len && ++q[i] == 4) q[i++] = 0;
    if (i >= len) break;
  }
}
static void periods(double res, const char *unit, double usec) {
  // every number of steps from 1 to 40, in every unit of the two quantities; forcing too short is refused
  Config c = make(COLUMNS[2], MODES[0], 800);
  c.forcing_s = res;
  c.timestep_s = std::min(res, 300.0);
  c.adaptive = false;
  c.name = fmt("period res=%gs unit=%s", res, unit);
  std::string fp = work() + "/forcing.csv", cp = work() + "/cfg.txt";
  for (int n = 1; n <= 40; n++)
    for (int ru = 0; ru < 3; ru++) {
      std::vector<Row> rows;
      for (int i = 0; i < n + 1; i++) rows.push_back({fmt("t%d", i), i % 3 ? 0.0 : 2.0, 0.1});
      put_file(fp, forcing_text(rows, 0));
      double total = n * res / usec;
      std::string t = cfg_for(c, fp, fmt("%.15g[%s]", total, unit));
      const char *rn[] = {"sec", "min", "hr"};
      const double rs[] = {1, 60, 3600};
      size_t a = t.find("forcing_resolution="), b = t.find('\n', a);
      t.replace(a, b - a, fmt("forcing_resolution=%.15g[%s]", res / rs[ru], rn[ru]));
      put_file(cp, t);
      trail_reset();
      trail(c.name + fmt(" n=%d, %s", n, t.substr(a, t.find('\n', a) - a).c_str()));
      judge(c, cp, rows, n);
      stats->aux[1]++;
      if (n > 1) {                                             // the forcing ends before the period
        rows.resize(n - 1);
        put_file(fp, forcing_text(rows, 0));
        std::string text;
        checked();
        stats->aux[2]++;
        if (run_program(cp, &text) == 0) fail("a forcing file with %d rows for %d steps was accepted", n - 1, n);
      }
    }
}
static Reg r18({"C18", [](std::vector<Job> &J, bool th) {
                  for (size_t i = 0; i < COLUMNS.size(); i++)
                    for (size_t j = 0; j < MODES.size(); j++) {
                      if (!th && (i + j) % 3) continue;
                      for (int f = 0; f < 4; f++) {
                        Config c = make(COLUMNS[i], MODES[j], j % 2 ? 200 : 2000);
                        if ((i + j) % 4 == 1) c.giuh = {0.3, 0.7};
                        if ((i + j) % 5 == 2) { c.soil[0] = 30; c.name += "/nosoil"; }
                        if ((i + j) % 5 == 3) { c.calib = true; c.name += "/calib"; }
                        J.push_back({c.name + "/" + RS[f].name, [=] { sample(c.name + ": every forcing file"); histories(c, th ? 6 : 4, f); }});
                      }
                    }
                  struct U { const char *n; double s; };
                  for (U u : {U{"sec", 1}, U{"s", 1}, U{"min", 60}, U{"hr", 3600}, U{"h", 3600}, U{"d", 86400}, U{"day", 86400}})
                    for (double res : {300., 600., 900., 1000., 1200., 1800., 3600., 7200., 10800.})
                      J.push_back({fmt("period/%s/%g", u.n, res), [=] { sample("every number of steps from 1 to 40"); periods(res, u.n, u.s); }});
                },
                "one run of the program per forcing file, compared row by row with an in-process interface run; non-trivial: steps with runoff or percolation and several fronts",
                {"program_runs", "period_and_unit_combinations", "too_short_forcing_files"}});
