// The only place that reads the model's internal data structures. If it does not compile against the tree under test,
// run.py builds it with VP_INTERFACE_ONLY and the profile is reconstructed from the interface outputs alone.
#include "vp.hpp"
namespace vp {
#ifndef VP_INTERFACE_ONLY
bool has_internals() { return true; }
bool internal_fronts(BmiLGAR *b, std::vector<Front> &f) {
  auto *m = b->get_model();
  int guard = 0;
  for (auto *w = m->head; w; w = w->next) {
    f.push_back({w->depth_cm, w->theta, w->psi_cm, w->K_cm_per_h, w->dzdt_cm_per_h, w->layer_num, w->front_num, (bool)w->to_bottom});
    if (++guard > 100000) return false;
  }
  return true;
}
double internal_pond(BmiLGAR *b) { return b->get_model()->lgar_mass_balance.volon_timestep_cm; }
int internal_timesteps(BmiLGAR *b) { return (int)b->get_model()->lgar_bmi_params.timesteps; }
bool internal_set_interval(BmiLGAR *b, double hours) {
  auto &p = b->get_model()->lgar_bmi_params;
  p.forcing_resolution_h = p.timestep_h = p.minimum_timestep_h = hours;
  p.adaptive_timestep = false;
  return true;
}
#else
bool has_internals() { return false; }
bool internal_fronts(BmiLGAR *, std::vector<Front> &) { return true; }
double internal_pond(BmiLGAR *) { return 0; }
int internal_timesteps(BmiLGAR *) { return 0; }
bool internal_set_interval(BmiLGAR *, double) { return false; }
#endif
}  // namespace vp
