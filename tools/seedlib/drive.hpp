// Minimal driver of the model for demonstrations: writes a configuration into a scratch directory and runs the interface.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#include "include/bmi_lgar.hxx"
static std::string tmpdir() { const char *d = getenv("DEMO_TMP"); return d ? d : "."; }
static const char *SOILS_TXT =
    "\"Texture\" theta_r theta_e alpha n Ks\n"
    "\"Clay\" 0.098 0.459 0.01496 1.253 0.612\n\"Clay_loam\" 0.079 0.442 0.01581 1.416 0.3348\n\"Loam\" 0.061 0.399 0.01112 1.472 0.504\n"
    "\"Loamy_sand\" 0.049 0.39 0.03475 1.746 4.32\n\"Sand\" 0.053 0.375 0.03524 3.177 26.64\n\"Sandy_clay\" 0.117 0.385 0.03342 1.208 0.468\n"
    "\"SCL\" 0.063 0.384 0.02109 1.330 0.54\n\"Sandy_loam\" 0.039 0.387 0.02667 1.449 1.584\n\"Silt\" 0.05 0.489 0.006577 1.679 1.836\n"
    "\"Silty_clay\" 0.111 0.481 0.01622 1.321 0.396\n\"SiCL\" 0.09 0.482 0.008395 1.521 0.468\n\"Silt_loam\" 0.065 0.439 0.005058 1.663 0.756\n"
    "\"P1\" 0.02360 0.43 0.0031297 1.37579 0.45\n\"P2\" 0.0231600 0.43 0.0083272 1.299 0.07\n\"P3\" 0.021560 0.43 0.0037454 1.615 0.45\n";
struct Cfg {
  std::string thick = "44.0,131.0,25.0", soil = "13,14,15";
  double psi = 2000, timestep = 300, forcing = 3600, pond = 0;
  int max_types = 15;
  bool closed = false, adaptive = true;
  std::string giuh = "0.06,0.51,0.28,0.12,0.03", extra;
  std::string end = "100000[d]";
};
static int g_cfgno = 0;
static std::string put(const std::string &name, const std::string &text) {
  std::string p = tmpdir() + "/" + name;
  std::ofstream(p) << text;
  return p;
}
static std::string cfg_text(const Cfg &c) {
  std::ostringstream o;
  o.precision(17);
  std::string soils = put("soils.dat", SOILS_TXT);
  o << "verbosity=none\nsoil_params_file=" << soils << "\nlayer_thickness=" << c.thick << "[cm]\ninitial_psi=" << c.psi << "[cm]\ntimestep=" << c.timestep
    << "[sec]\nendtime=" << c.end << "\nforcing_resolution=" << c.forcing << "[sec]\nponded_depth_max=" << c.pond << "[cm]\nuse_closed_form_G="
    << (c.closed ? "true" : "false") << "\nadaptive_timestep=" << (c.adaptive ? "true" : "false") << "\nlayer_soil_type=" << c.soil
    << "\nmax_valid_soil_types=" << c.max_types << "\nwilting_point_psi=15495.0[cm]\nfield_capacity_psi=340.9[cm]\ngiuh_ordinates=" << c.giuh << "\n" << c.extra;
  return o.str();
}
static BmiLGAR *start(const Cfg &c) {
  std::string p = put("cfg" + std::to_string(g_cfgno++) + ".txt", cfg_text(c));
  BmiLGAR *b = new BmiLGAR();
  b->Initialize(p);
  return b;
}
static double get(BmiLGAR *b, const char *n) { double v = 0; b->GetValue(n, &v); return v; }
static void upd(BmiLGAR *b, double p, double e) {
  b->SetValue("precipitation_rate", &p);
  b->SetValue("potential_evapotranspiration_rate", &e);
  b->Update();
}
static int bad(const char *f, double a = 0, double b = 0, double c = 0) { printf("FAIL: "); printf(f, a, b, c); printf("\n"); exit(1); }
