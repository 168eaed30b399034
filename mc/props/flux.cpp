// Totals and summary (C03), runoff routing (C07), time and forcing amounts (C08).
#include "family.hpp"
#include "substep.hpp"
using namespace vp;
static void checked() { stats->checks++; }

// the printed summary: label -> value
static std::map<std::string, double> parse_summary(const std::string &s) {
  std::map<std::string, double> m;
  std::stringstream ss(s);
  std::string l;
  while (std::getline(ss, l)) {
    size_t e = l.find('=');
    if (e == std::string::npos) continue;
    std::string k = l.substr(0, e);
    while (!k.empty() && k.back() == ' ') k.pop_back();
    char *end = nullptr;
    double v = strtod(l.c_str() + e + 1, &end);
    if (end != l.c_str() + e + 1) m[k] = v;
  }
  return m;
}

// ------------------------------------------------------------------ C03
struct Tot { double S0 = 0, S = 0, pond = 0, p = 0, pet = 0, aet = 0, run = 0, giuh = 0, q = 0, inf = 0, perc = 0; int n = 0; };
static void c03(Explorer<Tot> &e) {
  Config c = e.c;
  e.every_node = true;
  bool single = !c.adaptive && c.timestep_s == c.forcing_s;
  e.start = [](Tot &t, Model &m, const Obs &) { t.S0 = t.S = m.getd("soil_storage") * 100; };
  e.step = [=](Tot &t, Model &, const StepInfo &si, const Obs &, const Obs &o) {
    checked();
    t.n++;
    double pond = t.pond + (o.precip - o.infil - o.runoff) * 100, S = o.storage * 100;
    if (fabs(pond) < 1e-10) pond = 0;
    if (!(fabs(o.mb) <= 1e-8)) fail("mass balance output is %.6g m", o.mb);
    // only one sub-step: the mass balance output is the residual of the reported terms
    if (single || (c.adaptive && si.p == 0 && t.pond == 0)) {
      double res = t.S + (o.precip - o.runoff - o.aet - o.perc) * 100 + t.pond - pond - S;
      stats->aux[1]++;
      if (!(fabs(res - o.mb * 100) <= 1e-9)) fail("mass balance output %.6g cm, residual of the outputs %.6g cm", o.mb * 100, res);
    }
    t.pond = pond;
    t.S = S;
    t.p += o.precip * 100; t.pet += o.pet * 100; t.aet += o.aet * 100; t.run += o.runoff * 100; t.giuh += o.giuh * 100;
    t.q += o.q * 100; t.inf += o.infil * 100; t.perc += o.perc * 100;
  };
  e.end = [=](Tot &t, Model &m, const Obs &) {
    checked();
    std::string txt;
    int r = m.finalize(&txt);
    if (r != OK) fail("Finalize ended with %s (%s)", outcome_name(r), last_outcome_detail.c_str());
    auto s = parse_summary(txt);
    auto cmp = [&](const char *k, double v, double tol) {
      if (!s.count(k)) fail("the summary has no line '%s'", k);
      if (!(fabs(s[k] - v) <= tol)) fail("summary '%s' = %.10g cm after %d steps, the step outputs give %.10g cm", k, s[k], t.n, v);
    };
    double tol = 1e-8;
    if (t.run > 0 || t.perc > 0) stats->nontrivial++;
    if (t.pond > 1e-6) stats->aux[0]++;
    if (t.run - t.giuh > 1e-6) stats->aux[2]++;
    cmp("Initial water in soil", t.S0, tol);
    cmp("Total precipitation", t.p, tol);
    cmp("Total infiltration", t.inf, tol);
    cmp("Final water in soil", t.S, tol);
    cmp("Surface ponded water", t.pond, tol);
    cmp("Surface runoff", t.run, tol);
    cmp("GIUH runoff", t.giuh, tol);
    double osum = 0;
    for (double g : c.giuh) osum += g;
    cmp("GIUH water (in array)", t.run * osum - t.giuh, tol + 1e-9 * t.run);
    cmp("Total percolation", t.perc, tol);
    cmp("Total AET", t.aet, tol);
    cmp("Total PET", t.pet, tol);
    cmp("Total discharge (Q)", t.q, tol);
    cmp("Vol change (calibration)", 0, tol);
    double res = t.S0 + t.p - t.run - t.aet - t.pond - t.perc - t.S;
    cmp("Global balance", res, 1e-8);
    if (!(fabs(s["Global balance"]) <= 2e-6 * (t.n + 1))) fail("global balance error %.6g cm after %d steps", s["Global balance"], t.n);
  };
}
static Reg r03({"C03", [](std::vector<Job> &J, bool th) { add_jobs<Tot>(J, family(th), c03); },
                "a check is one Update or one finalised run (every prefix of every history is finalised); non-trivial: a finalised run with runoff or percolation",
                {"runs_finalised_with_ponded_water", "updates_whose_residual_is_compared", "runs_finalised_with_water_in_the_routing_queue"}});

// ------------------------------------------------------------------ C07
struct Rt { std::vector<double> run; double sumrun = 0, sumg = 0; };
static std::vector<double> spread(const std::vector<double> &hourly, double dt_h) {
  // fraction of the unit pulse leaving in interval k = sum over hours of ordinate * overlap(hour, interval)
  std::vector<double> o;
  int n = (int)ceil(hourly.size() / dt_h - 1e-9);
  for (int k = 0; k < n; k++) {
    double v = 0;
    for (size_t h = 0; h < hourly.size(); h++) {
      double ov = std::min((k + 1) * dt_h, h + 1.0) - std::max(k * dt_h, (double)h);
      if (ov > 0) v += hourly[h] * ov;
    }
    o.push_back(v);
  }
  return o;
}
static void c07(Explorer<Rt> &e) {
  Config c = e.c;
  auto ord = spread(c.giuh, c.dt_h());
  e.every_node = true;
  e.step = [=](Rt &t, Model &, const StepInfo &, const Obs &, const Obs &o) {
    checked();
    t.run.push_back(o.runoff);
    t.sumrun += o.runoff;
    t.sumg += o.giuh;
    double g = 0;
    for (size_t k = 0; k < ord.size() && k < t.run.size(); k++) g += ord[k] * t.run[t.run.size() - 1 - k];
    if (g > 0) stats->nontrivial++;
    if (g > 0 && o.runoff == 0) stats->aux[0]++;
    if (!(fabs(g - o.giuh) <= 1e-12 + 1e-10 * g)) fail("routed runoff %.12g m, convolution of the runoff history gives %.12g m (step %d)", o.giuh, g, (int)t.run.size());
    if (!(fabs(o.q - o.giuh - o.gw) <= 1e-15)) fail("total discharge %.12g m, routed runoff %.12g m, groundwater %.12g m", o.q, o.giuh, o.gw);
    if (!(o.giuh >= 0)) fail("negative routed runoff %.12g m", o.giuh);
  };
  e.end = [=](Rt &t, Model &m, const Obs &) {
    checked();
    std::string txt;
    m.finalize(&txt);
    auto s = parse_summary(txt);
    double left = 0;      // what the pending pulses will still deliver
    for (size_t i = 0; i < t.run.size(); i++) {
      size_t age = t.run.size() - 1 - i;
      for (size_t k = age + 1; k < ord.size(); k++) left += ord[k] * t.run[i] * 100;
    }
    if (left > 0) stats->aux[1]++;
    if (!(fabs(s["GIUH water (in array)"] - left) <= 1e-8)) fail("routing queue holds %.10g cm, %.10g cm of the runoff has not left yet", s["GIUH water (in array)"], left);
    if (!(fabs(s["GIUH runoff"] - t.sumg * 100) <= 1e-8)) fail("total routed runoff %.10g cm, sum of the steps %.10g cm", s["GIUH runoff"], t.sumg * 100);
  };
}
static void jobs07(std::vector<Job> &J, bool th) {
  static const Alphabet A{"giuh", {{"dry", 0, 0, 1}, {"storm", 70, 0.1, 1}, {"burst", 160, 0, 1}, {"gap", 0, 0.2, 3}}}, B{"giuhlong", {{"dry", 0, 0, 1}, {"storm", 70, 0.1, 2}, {"gap", 0, 0.2, 11}, {"rest", 0, 0, 37}}};
  std::vector<std::vector<double>> O = {{1}, {0.5, 0.5}, {0, 1}, {0.06, 0.51, 0.28, 0.12, 0.03}, {0.1, 0, 0.3, 0, 0.6}, {0.4, 0.2}, {0.05, 0.1, 0.15, 0.2, 0.15, 0.1, 0.1, 0.05, 0.05, 0.03, 0.02}, {0.2, 0.3, 0.5}, {0, 0, 0, 1}, {0.25, 0.25, 0.25, 0.25, 0, 0}};
  O.push_back({});
  for (int k = 1; k <= 24; k++) O.back().push_back(k / 300.0);                   // a day
  O.push_back(std::vector<double>(60, 1.0 / 60));                                 // 60 equal ordinates
  std::vector<Case> v;
  for (size_t i = 0; i < O.size(); i++)
    for (double fs : {300., 900., 1200., 1800., 2400., 3600., 5400., 7200., 10800., 36000.})
      for (int col = 0; col < 2; col++) {
        if (!th && (i + col) % 2) continue;
        Config c = make(COLUMNS[col ? 3 : 5], MODES[0], 500);
        c.forcing_s = fs;
        c.timestep_s = fs < 900 ? 300 : fs > 20000 ? 3600 : 900;
        c.giuh = O[i];
        c.pond_max = col ? 0.3 : 0;
        c.name = fmt("giuh%d/fs%g/%s", (int)i, fs, col ? "clay1" : "claysand");
        v.push_back({c, O[i].size() > 20 ? B : A, th ? 7 : 5});
      }
  add_jobs<Rt>(J, v, c07);
}
static Reg r07({"C07", jobs07, "a check is one Update or one finalised run (every prefix of every history); non-trivial: water leaves the routing queue in that step",
                {"updates_draining_the_queue_without_new_runoff", "runs_finalised_with_water_in_the_queue"}});

// ------------------------------------------------------------------ C08
// symbols: n encodes the operation: 1 = Update, 2 = UpdateUntil two intervals ahead, 3 = UpdateUntil 2.5 intervals ahead, 4 = UpdateUntil now
struct T8 { BmiLGAR *ref = nullptr; double t = 0; int steps = 0; };
static void jobs08(std::vector<Job> &J, bool th) {
  static const Alphabet A{"time", {{"U0", 0, 0.37, 1}, {"Udrz", 1.3, 0.1, 1}, {"Ustorm", 47.11, 0, 1}, {"UU2", 12.3, 0.2, 2}, {"UU2.5", 0, 0.9, 3}, {"UUnow", 3, 0.1, 4}}};
  const double TS[] = {60, 300, 420, 600, 1000, 1800, 3600, 5000, 7200}, FS[] = {300, 900, 1800, 3600, 5400, 7200};
  const char *cols[] = {"phil", "clay1", "four"};
  int idx = 0;
  for (double fs : FS)
    for (double ts : TS)
      for (int ad = 0; ad < 2; ad++)
        for (int ci = 0; ci < 3; ci++) {
          if (!th && ci != idx++ % 3) continue;
          const Column *col = &COLUMNS[0];
          for (auto &x : COLUMNS) if (!strcmp(x.name, cols[ci])) col = &x;
          Config c = make(*col, MODES[ci], ci ? 400 : 2000);
          c.forcing_s = fs;
          c.timestep_s = ts;
          c.adaptive = ad;
          c.name = fmt("fs%g/ts%g/%s/%s", fs, ts, ad ? "adaptive" : "fixed", col->name);
          int depth = th ? 5 : 4;
          J.push_back({c.name, [=] {
            sample(c.name);
            std::string path = write_config(c);
            // tree over operations, two instances in the same arena: the second one is only ever advanced by Update()
            struct Node { Model m, r; double t = 0; int steps = 0; } N;
            arena_reset();
            std::vector<std::unique_ptr<Snapshot>> sn;
            for (int i = 0; i <= depth; i++) sn.emplace_back(new Snapshot());
            auto begin = [&] {
              trail_reset();
              trail("config " + c.name + " file " + path);
              if (N.m.init(path) != OK || N.r.init(path) != OK) fail("initialisation failed: %s", last_outcome_detail.c_str());
              N.t = 0;
              N.steps = 0;
              if (N.m.b->GetTimeStep() != fs) fail("GetTimeStep() is %.10g s, the forcing interval is %g s", N.m.b->GetTimeStep(), fs);
              if (N.m.b->GetCurrentTime() != 0 || N.m.b->GetStartTime() != 0) fail("initial time %g, start time %g", N.m.b->GetCurrentTime(), N.m.b->GetStartTime());
              if (fabs(N.m.b->GetEndTime() - c.endtime_h * 3600) > 1e-3) fail("GetEndTime() is %.10g s, configured %.10g s", N.m.b->GetEndTime(), c.endtime_h * 3600);
            };
            auto op = [&](const Sym &s) {
              trail(fmt("%s P=%g PET=%g", s.name, s.p, s.pet));
              int k = s.n == 1 ? 1 : s.n == 2 ? 2 : s.n == 3 ? 3 : 0;
              double p = s.p, pet = s.pet;
              int rc;
              checked();
              if (s.n == 1) {
                rc = N.m.step(p, pet);
              } else {
                double target = N.m.b->GetCurrentTime() + (s.n == 2 ? 2.0 : s.n == 3 ? 2.5 : 0.0) * fs;
                if (target <= 0) target = 1e-7;
                rc = N.m.call([&] {
                  N.m.b->SetValue("precipitation_rate", &p);
                  N.m.b->SetValue("potential_evapotranspiration_rate", &pet);
                  N.m.b->UpdateUntil(target);
                });
                stats->aux[0]++;
              }
              if (rc != OK) fail("%s ended with %s (%s)", s.name, outcome_name(rc), last_outcome_detail.c_str());
              for (int i = 0; i < k; i++)
                if (N.r.step(p, pet) != OK) fail("Update ended with %s", last_outcome_detail.c_str());
              N.steps += k;
              stats->steps_unique++;
              Obs a = N.m.obs(), b = N.r.obs();
              note_state(hash_obs(a, hash_str(path)));
              std::string why;
              double want = N.steps * fs;
              if (!(fabs(a.time - want) <= 1e-6 + 1e-9 * want)) fail("after %s the time is %.10g s, %d intervals of %g s are %.10g s", s.name, a.time, N.steps, fs, want);
              if (k > 0) {
                stats->nontrivial++;
                double P = s.p * 1e-3 * fs / 3600, E = s.pet * 1e-3 * fs / 3600;
                if (!(fabs(a.precip - P) <= 1e-12 + 1e-10 * P)) fail("reported precipitation %.12g m, rate x interval = %.12g m", a.precip, P);
                if (!(fabs(a.pet - E) <= 1e-12 + 1e-10 * E)) fail("reported potential evapotranspiration %.12g m, rate x interval = %.12g m", a.pet, E);
              }
              if (!bitwise_equal(a, b, &why)) fail("%s differs from the same number of single Updates: %s", s.name, why.c_str());
            };
            std::function<void(int)> rec = [&](int lvl) {
              if (lvl == depth) { stats->sequences++; return; }
              sn[lvl]->save();
              BmiLGAR *b1 = N.m.b, *b2 = N.r.b;
              int st = N.steps;
              size_t tn = ctx->trail.size();
              for (auto &s : A.s) {
                op(s);
                rec(lvl + 1);
                sn[lvl]->restore();
                N.m.b = b1; N.r.b = b2; N.steps = st;
                trail_pop(tn);
              }
            };
            if (tree_mode()) {
              begin();
              rec(0);
              N.m.drop(); N.r.drop();
              arena_reset();
            } else {
              std::vector<int> q(depth, 0);
              for (;;) {
                begin();
                for (int i : q) op(A.s[i]);
                stats->sequences++;
                std::string x;
                N.m.finalize(&x); N.r.finalize(&x);
                int i = depth - 1;
                while (i >= 0 && ++q[i] == (int)A.s.size()) q[i--] = 0;
                if (i < 0) break;
              }
            }
          }});
        }
}
// every Update is its sub-steps
static void c08s(SubEx<T8> &e) {
  Config c = e.c;
  e.sub = [](T8 &, const Config &, const StepInfo &, const Obs &, const Obs &) {};
  e.upd = [=](const StepInfo &si, const Obs &o, const Obs &s) {
    checked();
    stats->nontrivial++;
    if (!(fabs(o.time - s.time) <= 1e-4)) fail("the clock is at %.10g s after an Update whose sub-steps end at %.10g s", o.time, s.time);
    double P = si.p * 1e-3 * c.dt_h(), E = si.pet * 1e-3 * c.dt_h();
    if (!(fabs(o.precip - P) <= 1e-12 + 1e-10 * P && fabs(o.pet - E) <= 1e-12 + 1e-10 * E)) fail("reported precipitation %.12g m and potential evapotranspiration %.12g m, rates x interval = %.12g m and %.12g m", o.precip, o.pet, P, E);
    bool same = o.nwf == s.nwf && sub_near(o.infil, s.infil, o.precip) && sub_near(o.runoff, s.runoff, o.precip) && fabs(o.aet - s.aet) <= 1e-12 + 1e-6 * o.pet &&
                sub_near(o.perc, s.perc, s.perc) && sub_near(o.storage, s.storage, s.storage) && sub_near(o.volon_cm, s.volon_cm, s.volon_cm);
    for (int i = 0; same && i < o.nwf; i++) same = fabs(o.z[i] - s.z[i]) <= 1e-6 * o.z[i] && fabs(o.th[i] - s.th[i]) <= 1e-6;
    if (!same) fail("an Update differs from its sub-steps taken one at a time: %s, sub-steps: %s", show(o).c_str(), show(s).c_str());
  };
}
// a run that ends at the configured end time: the last Update is as complete as the others
static void jobs08_end(std::vector<Job> &J, bool th) {
  static const Alphabet A{"end", {{"dry", 0, 0.4, 1}, {"drz", 2, 0.3, 1}, {"storm", 45, 0.2, 1}}};
  int idx = 0;
  for (double fs : {300., 900., 1800., 3600., 5400., 7200.})
    for (double ts : {60., 300., 420., 1000., 1800., 3600.})
      for (int ad = 0; ad < 2; ad++)
        for (int n = 1; n <= (th ? 6 : 4); n++) {
          const Column &col = COLUMNS[idx++ % COLUMNS.size()];
          Config c = make(col, MODES[idx % MODES.size()], 300);
          c.forcing_s = fs;
          c.timestep_s = ts;
          c.adaptive = ad;
          c.endtime_h = n * fs / 3600;
          Config u = c;
          u.endtime_h = 1e6;
          c.name = fmt("end%d/fs%g/ts%g/%s/%s", n, fs, ts, ad ? "adaptive" : "fixed", col.name);
          J.push_back({c.name, [=] {
            sample(c.name);
            std::string pc = write_config(c), pu = write_config(u);
            std::vector<int> q(n, 0);
            for (;;) {
              trail_reset();
              trail("config " + c.name + " file " + pc);
              Model m, r;
              if (m.init(pc) != OK || r.init(pu) != OK) fail("initialisation failed: %s", last_outcome_detail.c_str());
              if (fabs(m.b->GetEndTime() - n * fs) > 1e-4) fail("GetEndTime() is %.10g s, configured %.10g s", m.b->GetEndTime(), n * fs);
              for (int i = 0; i < n; i++) {
                const Sym &s = A.s[q[i]];
                trail(s.name);
                if (m.step(s.p, s.pet) != OK || r.step(s.p, s.pet) != OK) fail("Update ended with %s", last_outcome_detail.c_str());
                Obs a = m.obs(), b = r.obs();
                std::string why;
                checked();
                stats->steps_unique++;
                note_state(hash_obs(a, hash_str(pc)));
                if (!(fabs(a.time - (i + 1) * fs) <= 1e-4)) fail("after Update %d of %d the time is %.10g s, %d intervals of %g s are %.10g s", i + 1, n, a.time, i + 1, fs, (i + 1) * fs);
                if (!bitwise_equal(a, b, &why)) fail("Update %d of %d differs from a run with a later end time: %s", i + 1, n, why.c_str());
              }
              stats->sequences++;
              stats->nontrivial++;
              std::string x;
              if (m.finalize(&x) != OK || r.finalize(&x) != OK) fail("Finalize ended with %s", last_outcome_detail.c_str());
              int i = n - 1;
              while (i >= 0 && ++q[i] == (int)A.s.size()) q[i--] = 0;
              if (i < 0) break;
            }
          }});
        }
}
// long runs: the clock and the amounts stay exact over tens of thousands of intervals, also when one call covers them all
static void jobs08_long(std::vector<Job> &J, bool th) {
  static const Sym S[] = {{"dry", 0, 0, 1}, {"drz", 0.7, 0.2, 1}, {"shower", 3, 0.3, 1, 0, 0.3}};
  int idx = 0;
  for (double fs : {300., 900., 1200., 3600., 5400., 7200., 36000., 86400.})
    for (int kind = 0; kind < 3; kind++)                                          // soil, no soil, soil in one call
      for (int ad = 0; ad < 2; ad++)
        for (auto &s : S) {
          Config c = make(COLUMNS[idx++ % 4 ? 2 : 9], MODES[0], 500);
          c.forcing_s = fs;
          c.timestep_s = ad ? 300 : std::min(fs, 3600.);
          c.adaptive = ad;
          c.endtime_h = 1e8;
          if (kind == 1) c.soil[0] = 40;
          int n = th ? 100000 : kind == 1 ? 50000 : fs > 4000 ? 3000 : 8000;
          c.name = fmt("long%d/fs%g/%s/%s", kind, fs, ad ? "adaptive" : "fixed", s.name);
          J.push_back({c.name, [=] {
            sample(c.name);
            trail_reset();
            std::string path = write_config(c);
            trail("config " + c.name + " file " + path);
            trail(fmt("%s: %d intervals of %g s, P=%g PET=%g", s.name, n, fs, s.p, s.pet));
            Model m;
            if (m.init(path) != OK) fail("initialisation failed: %s", last_outcome_detail.c_str());
            double P = s.p * 1e-3 * fs / 3600, E = s.pet * 1e-3 * fs / 3600;
            int done = 0;
            auto look = [&] {
              Obs a = m.obs();
              checked();
              stats->steps_unique++;
              stats->nontrivial++;
              note_state(hash_obs(a, hash_str(path)));
              double want = done * fs;
              if (!(fabs(a.time - want) <= 1e-6 + 1e-9 * want)) fail("the time is %.12g s after %d intervals of %g s (%.12g s)", a.time, done, fs, want);
              bool off = s.p2 >= 0 && (done - 1) % 2;
              double p = off ? s.p2 * 1e-3 * fs / 3600 : P, e = off ? s.pet2 * 1e-3 * fs / 3600 : E;
              if (!(fabs(a.precip - p) <= 1e-12 + 1e-10 * p)) fail("reported precipitation %.12g m, rate x interval = %.12g m, after %d intervals", a.precip, p, done);
              if (c.soil[0] < 40 && !(fabs(a.pet - e) <= 1e-12 + 1e-10 * e)) fail("reported potential evapotranspiration %.12g m, rate x interval = %.12g m, after %d intervals", a.pet, e, done);
            };
            if (kind < 2) {
              for (int i = 0; i < n; i++) {
                bool off = s.p2 >= 0 && i % 2;
                if (m.step(off ? s.p2 : s.p, off ? s.pet2 : s.pet) != OK) fail("Update %d ended with %s", i + 1, last_outcome_detail.c_str());
                done++;
                look();
              }
            } else {
              for (int k : {n / 2, 1, n / 2}) {
                double p = s.p, e = s.pet;
                int r = m.call([&] { m.b->SetValue("precipitation_rate", &p); m.b->SetValue("potential_evapotranspiration_rate", &e); m.b->UpdateUntil((done + k) * fs); });
                if (r != OK) fail("UpdateUntil over %d intervals ended with %s (%s)", k, outcome_name(r), last_outcome_detail.c_str());
                done += k;
                Obs a = m.obs();
                checked();
                stats->aux[0]++;
                if (!(fabs(a.time - done * fs) <= 1e-6 + 1e-9 * done * fs)) fail("the time is %.12g s after UpdateUntil(%.12g s)", a.time, done * fs);
                if (!(fabs(a.precip - P) <= 1e-12 + 1e-10 * P)) fail("reported precipitation %.12g m, rate x interval = %.12g m", a.precip, P);
              }
            }
            stats->sequences++;
            std::string x;
            if (m.finalize(&x) != OK) fail("Finalize ended with %s", last_outcome_detail.c_str());
          }});
        }
}
static Reg r08({"C08", [](std::vector<Job> &J, bool th) { jobs08(J, th); jobs08_end(J, th); jobs08_long(J, th); add_sub_jobs<T8>(J, th, c08s); }, "a check is one advance operation (Update or UpdateUntil) compared with the clock, the given rates and a twin advanced by single Updates; non-trivial: time advanced",
                {"UpdateUntil_operations"}});
