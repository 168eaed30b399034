From 0f4aa35f95ba4d55d8e1edef835e78b5fe47a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 01/34] fix: text after the unit of a config value made the
 unit unrecognised

The unit was cut out with a length counted from the start of the line, so anything after the closing
bracket became part of it and e.g. 'timestep=300[sec] # comment' was read as 300 hours.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..7a773e7 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -251,7 +251,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")+1-loc_u);
     else
       param_unit = "";
 
-- 
2.43.0


From 49fe9e76b2651147a37f55c8156f4805750b0249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 02/34] fix: a missing layer_thickness or soil_z key was used
 before it was rejected

The number of layers and of temperature cells is uninitialised in that case, and was used to walk
the layer soil types and to size an array before the error was raised.
---
 src/lgar.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7a773e7..82574e5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -544,6 +544,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     std::cerr<<"          *****         \n";
   }
 
+  if (!is_layer_thickness_set) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
+
   if (!is_layer_soil_type_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
@@ -593,12 +599,6 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     throw runtime_error(errMsg.str());
   }
   
-  if (!is_layer_thickness_set) {
-    stringstream errMsg;
-    errMsg << "The configuration file \'" << config_file <<"\' does not set layer_thickness. \n";
-    throw runtime_error(errMsg.str());
-  }
-
   if (!is_initial_psi_set) {
     stringstream errMsg;
     errMsg << "The configuration file \'" << config_file <<"\' does not set initial_psi. \n";
@@ -664,12 +664,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (state->lgar_bmi_params.sft_coupled) {
-    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
     if (!is_soil_z_set) {
       stringstream errMsg;
       errMsg << "The configuration file \'" << config_file <<"\' does not set soil_z. \n";
       throw runtime_error(errMsg.str());
     }
+    state->lgar_bmi_params.soil_temperature = new double[state->lgar_bmi_params.num_cells_temp]();
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
-- 
2.43.0


From 116243bb0a9b00c30b57ed48baad92e754e71b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:25 +0000
Subject: [PATCH 03/34] fix: soil properties were read out of bounds for soil
 types that are not in the table

A layer soil type that is invalid for the model (waterbody, glacier, ...) indexed past the end of the
soil property table during initialisation; a type within max_valid_soil_types but without a row in
the file used uninitialised properties.
---
 src/lgar.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 82574e5..7828fd9 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -561,7 +561,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1](); // entry 0 stays empty
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
@@ -573,14 +573,14 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= state->lgar_bmi_params.num_soil_types);
       //assert (state->lgar_bmi_params.layer_soil_type[layer] <= max_num_soil_in_file);
-      if (state->lgar_bmi_params.layer_soil_type[layer] > state->lgar_bmi_params.num_soil_types) {
+      if (state->lgar_bmi_params.layer_soil_type[layer] < 1 || state->lgar_bmi_params.layer_soil_type[layer] > max_num_soil_in_file) {
 	state->lgar_bmi_params.is_invalid_soil_type = true;
 	if (verbosity.compare("high") == 0) {
 	  std::cerr << "Invalid soil type: "
 		    << state->lgar_bmi_params.layer_soil_type[layer]
 		    <<". Model returns input_precip = ouput_Qout. \n";
 	}
-	break;
+	state->lgar_bmi_params.layer_soil_type[layer] = 0; // no soil properties are known for it
       }
     }
 
-- 
2.43.0


From 486ddb275a3f9f248c6650baa7e58924696328eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 04/34] fix: max_valid_soil_types larger than 15 was silently
 cut to 15

The shipped Bushland configuration (soil types 16-18, max_valid_soil_types=25) was therefore treated as
an invalid soil, and the model passed precipitation through instead of simulating.
---
 include/all.hxx | 2 +-
 src/lgar.cxx    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..24ed839 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -116,7 +116,7 @@ struct lgar_bmi_parameters
   double forcing_resolution_h;     // forcing resolution in hours
   double minimum_timestep_h;       // minimum time step in hours, only used if adaptive_timestep is true
   int    forcing_interval;         // = forcing_resolution_h/timestep_h
-  int    num_soil_types;           // number of soil types; must be less than or equal to MAX_NUM_SOIL_TYPES
+  int    num_soil_types;           // maximum number of valid soil types (default is MAX_NUM_SOIL_TYPES)
   double AET_cm;                   // actual evapotranspiration in cm
 
   //double *soil_moisture_layers;    // 1D array of thetas (mean soil moisture content) per layer; output option to other models if needed
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7828fd9..7ca5778 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -154,7 +154,7 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   @param timestep_h             : model timestep in hours
   @param forcing_resolution_h   : forcing resolution in hours
   @param forcing_interval       : factor equals to forcing_resolution_h/timestep_h (used to determine model subtimestep's forcings)
-  @param num_soil_types         : number of soil types; must be less than or equal to MAX_NUM_SOIL_TYPES
+  @param num_soil_types         : maximum number of valid soil types read from the soil parameters file (default is MAX_NUM_SOIL_TYPES)
   @param AET_cm                 : actual evapotranspiration in cm
   @param soil_temperature       : 1D (double) array of soil temperature [K]; bmi input for coupling lasam to soil freeze thaw model
   @param soil_temperature_z     : 1D (double) array of soil discretization associated with temperature profile [m];
@@ -351,7 +351,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       continue;
     }
     else if (param_key == "max_valid_soil_types") {
-      state->lgar_bmi_params.num_soil_types = std::min(stoi(param_value), MAX_NUM_SOIL_TYPES);
+      state->lgar_bmi_params.num_soil_types = stoi(param_value);
       is_max_valid_soil_types_set = true;
       continue;
     }
-- 
2.43.0


From 5383b9510d3dd80597c8d2f06822f5dcef474c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 05/34] fix: with an invalid soil type the clock stood still
 and rain rates were taken for amounts

Update() returned before advancing the time, and used the precipitation rate as if the forcing
resolution were always one hour.
---
 src/bmi_lgar.cxx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..bb38285 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -88,15 +88,19 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // amount of precipitation in this (forcing) timestep
+    double precip_timestep_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_timestep_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -104,13 +108,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_timestep_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From add33a57b5c807beda9c75a24f3a540ecc08e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 06/34] fix: GetGridShape wrote past a rank-1 shape for the
 wetting front grid

It stored the size at shape[1], leaving shape[0] unset, and gave no shape at all for grids 0, 1 and 4.
---
 src/bmi_lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index bb38285..90cbdbe 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -824,10 +824,8 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
-    shape[0] = this->state->lgar_bmi_params.num_layers;
-  else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+  if (this->GetGridRank(grid) == 1)
+    shape[0] = this->GetGridSize(grid);
 }
 
 
-- 
2.43.0


From c774def80b8540bd3dd2544f466f88a97cdf9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:01 +0000
Subject: [PATCH 07/34] fix: output variables read before the first Update()
 were uninitialised memory

---
 include/bmi_lgar.hxx | 2 +-
 src/bmi_lgar.cxx     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bmi_lgar.hxx b/include/bmi_lgar.hxx
index b29339a..71fb1b4 100644
--- a/include/bmi_lgar.hxx
+++ b/include/bmi_lgar.hxx
@@ -162,7 +162,7 @@ private:
     double mass_balance_m;
   };
 
-  struct bmi_unit_conversion bmi_unit_conv;
+  struct bmi_unit_conversion bmi_unit_conv = {};
 };
 
 
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 90cbdbe..564e858 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -55,6 +55,11 @@ Initialize (std::string config_file)
     giuh_runoff_queue[i] = 0.0;
   }
 
+  // no flux has happened yet
+  bmi_unit_conv = bmi_unit_conversion();
+  if (!state->lgar_bmi_params.is_invalid_soil_type)
+    bmi_unit_conv.volend_timestep_m = state->lgar_mass_balance.volstart_cm * state->units.cm_to_m;
+
 }
 
 /**
-- 
2.43.0


From 3e53a5062f6c9d0871df8b9d1e99314c73334d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:06 +0000
Subject: [PATCH 08/34] fix: soil_depth_layers returned centimetres, shifted by
 one layer

The variable is declared in metres with one value per layer; it exposed the internal cumulative
thickness array, whose first entry is the surface (0), so the bottom of the last layer was missing, and
SetValue on it overwrote the model's layer geometry.
---
 include/all.hxx  | 1 +
 src/bmi_lgar.cxx | 3 ++-
 src/lgar.cxx     | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/all.hxx b/include/all.hxx
index 24ed839..2f74749 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -110,6 +110,7 @@ struct lgar_bmi_parameters
   int    num_wetting_fronts;       // number of wetting fronts
   int    num_cells_temp;           // number of cells of the discretized soil temperature profile
   double *cum_layer_thickness_cm;  // cumulative thickness of layers, allocate memory at run time
+  double *soil_depth_layers_m;     // depth of the bottom of each layer from the surface in meters (bmi output)
   double soil_depth_cm;            // depth of the computational domain (i.e., depth of the last/deepest soil layer from the surface)
   double initial_psi_cm;           // model initial (psi) condition
   double timestep_h;               // model timestep in hours
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 564e858..845b977 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -692,6 +692,7 @@ Finalize()
 
   delete [] state->lgar_bmi_params.layer_thickness_cm;
   delete [] state->lgar_bmi_params.cum_layer_thickness_cm;
+  delete [] state->lgar_bmi_params.soil_depth_layers_m;
   delete [] state->lgar_bmi_params.giuh_ordinates;
   delete [] state->lgar_bmi_params.frozen_factor;
   delete state->lgar_bmi_input_params;
@@ -921,7 +922,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)this->state->lgar_bmi_params.soil_depth_layers_m;
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7ca5778..fccc68d 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -83,6 +83,11 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   state->lgar_bmi_params.soil_depth_wetting_fronts    = new double[state->lgar_bmi_params.num_wetting_fronts];
   state->lgar_bmi_params.soil_moisture_wetting_fronts = new double[state->lgar_bmi_params.num_wetting_fronts];
 
+  // depths of the layer boundaries (bmi output)
+  state->lgar_bmi_params.soil_depth_layers_m = new double[state->lgar_bmi_params.num_layers];
+  for (int i=0; i<state->lgar_bmi_params.num_layers; i++)
+    state->lgar_bmi_params.soil_depth_layers_m[i] = state->lgar_bmi_params.cum_layer_thickness_cm[i+1] * state->units.cm_to_m;
+
   // initialize array for holding calibratable parameters
   state->lgar_calib_params.theta_e  = new double[state->lgar_bmi_params.num_layers];
   state->lgar_calib_params.theta_r  = new double[state->lgar_bmi_params.num_layers];
-- 
2.43.0


From fa3b9ee2d6f5101957581cceb306ff4fc9afa539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:31 +0000
Subject: [PATCH 09/34] fix: a model timestep that does not divide the forcing
 resolution lost time and water

The number of subcycles was truncated, so each Update() advanced less than a forcing interval (not at
all for a timestep larger than it) and dropped the corresponding precipitation and PET.
---
 src/bmi_lgar.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 845b977..b87cf03 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -212,6 +212,12 @@ Update()
   state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
   subcycles = state->lgar_bmi_params.forcing_interval;
 
+  // if the model timestep does not divide the forcing timestep, take the next smaller one that does
+  if (fabs(subcycles * subtimestep_h - state->lgar_bmi_params.forcing_resolution_h) > 1.0e-08 * state->lgar_bmi_params.forcing_resolution_h) {
+    subcycles += 1;
+    subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / subcycles;
+  }
+
   if (verbosity.compare("high") == 0) {
     printf("time step size in hours: %lf \n", state->lgar_bmi_params.timestep_h);
   }
-- 
2.43.0


From 9e6b428abcf8854aa83a13420cfe54501779c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 10/34] fix: GIUH ordinates were wrong unless the forcing
 resolution divides one hour

The hourly ordinates were scaled with int(1/resolution): for resolutions above one hour there were no
ordinates at all, so the runoff was lost (and the queue written at index -1), and for others the unit
hydrograph was shortened.
---
 src/lgar.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fccc68d..ef30526 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -641,15 +641,18 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    // the ordinates are hourly, each one is spread evenly over the forcing intervals that overlap with its hour
+    double interval_h = state->lgar_bmi_params.forcing_resolution_h;
+    int num_hours = giuh_ordinates_temp.size() - 1;
 
-    state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
+    state->lgar_bmi_params.num_giuh_ordinates = int(ceil(num_hours/interval_h - 1.0e-08));
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-    
-    for (int i=0; i<giuh_ordinates_temp.size()-1; i++) {
-      for (int j=0; j<factor; j++) {
-        int index = j + i * factor + 1;
-        state->lgar_bmi_params.giuh_ordinates[index] = giuh_ordinates_temp[i+1]/double(factor);
+
+    for (int index=1; index<=state->lgar_bmi_params.num_giuh_ordinates; index++) {
+      state->lgar_bmi_params.giuh_ordinates[index] = 0.0;
+      for (int i=0; i<num_hours; i++) {
+	double overlap_h = fmin(index * interval_h, i + 1.0) - fmax((index - 1) * interval_h, double(i));
+	state->lgar_bmi_params.giuh_ordinates[index] += giuh_ordinates_temp[i+1] * fmax(overlap_h, 0.0);
       }
     }
     
-- 
2.43.0


From 72902a225413a17b6f8a703c781b63f203ed87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 11/34] fix: the soil temperature profile was read past its end
 when it stops above the last layer

---
 src/lgar.cxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index ef30526..7d1f51b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -832,16 +832,12 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    while (c < lgar_bmi_params.num_cells_temp && lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-
-      if (c == lgar_bmi_params.num_cells_temp) // to ensure we don't access out of bound values
-	break;
     }
 
-
     // assert (layer_temp > 100.0); // just a check to ensure the while loop executes at least once
     assert (count > 0); // just a check to ensure the while loop executes at least once
 
-- 
2.43.0


From 70d32cfd2c89fcdbd5dfca67d6074cd172a3f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 12/34] fix: soil_z leaked when it is given without sft_coupled

---
 src/lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7d1f51b..a599cd6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -681,6 +681,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
+    if (is_soil_z_set)
+      delete [] state->lgar_bmi_params.soil_temperature_z;
     state->lgar_bmi_params.soil_temperature   = new double[1]();
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
     state->lgar_bmi_params.num_cells_temp     = 1;
-- 
2.43.0


From edd63627f75ffc9558e25fb163a209a2e767205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:52 +0000
Subject: [PATCH 13/34] fix: UpdateUntil(t) took a single step whatever t was

The BMI defines it as advancing the model to time t.
---
 src/bmi_lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index b87cf03..3088e67 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -580,7 +580,8 @@ void BmiLGAR::
 UpdateUntil(double t)
 {
   assert (t > 0.0);
-  this->Update();
+  while (this->GetCurrentTime() + 1.0e-06 < t)
+    this->Update();
 }
 
 struct model_state* BmiLGAR::get_model()
-- 
2.43.0


From 7ba060e01815fbb2eb32400a985d22dfb7fa0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:07 +0000
Subject: [PATCH 14/34] fix: only one wetting front per timestep could leave
 through the domain bottom

When two fronts reach the bottom of the domain in the same timestep, the second one stayed in the list
at a depth below the domain.
---
 src/lgar.cxx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index a599cd6..00dc8b5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1798,14 +1798,12 @@ extern double lgar_wetting_front_cross_domain_boundary(double domain_depth_cm, i
       next->K_cm_per_h = calc_K_from_Se(Se_k, Ksat_cm_per_h, vg_m);
       current = listDeleteFront(current->front_num, head);
       bottom_flux_cm += bottom_flux_cm_temp; 
-      break;
+      current = *head; // start over, as the front above the deleted one may have crossed the boundary too
+      wf = 0;
+      continue;
     }
     
     current = current->next;
-
-    if (bottom_flux_cm_temp!=0){//PTL: perhaps due to potential problems with precision error, this should just be replaces with a flag that gets toggled when bottom_boundary_flux_cm is changed from 0 to nonzero
-      break;
-    }
   }
 
   if (verbosity.compare("high") == 0) {
-- 
2.43.0


From 80880c904bc1ad79e64b5e58bc69dd5b575be153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 15/34] fix: front speeds below the second layer paired layer
 thicknesses with other layers' conductivities

The conductivity of layer N-k was divided into the thickness of layer k; lgar_insert_water already
pairs them correctly.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 00dc8b5..215b45a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2478,7 +2478,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From 0177d8b5c2549b09e7db15d6db21e43fae490d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 16/34] fix: the infiltration capacity used the frozen factor
 of the wrong layer

The conductivity of the layer with the infiltrating front was reduced by the frozen factor of the
topmost layer.
---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 215b45a..2204569 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1980,7 +1980,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -1997,7 +1997,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
-- 
2.43.0


From af09c9df0a59b07bff4eaf10a3573f15687e6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 17/34] fix: the frozen factor was applied twice to the
 conductivity of a new surficial front

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 2204569..974fa5b 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2156,7 +2156,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 10c7a438b97d8a94cf20b19cd36dde5633e24d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:59 +0000
Subject: [PATCH 18/34] fix: the conductivity of saturated wetting fronts was
 not updated

K(theta) was only refreshed for fronts with psi > 1 cm, and not for a front that crosses into the next
layer, so that a front that became saturated kept moving with the conductivity it had before.
---
 src/lgar.cxx | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 974fa5b..039bf7c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1514,21 +1514,22 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   for (int wf=1; wf != listLength(*head); wf++) {
 
-    if (current->psi_cm>1.0){
-      int soil_num_k    = soil_type[current->layer_num];
+    int soil_num_k    = soil_type[current->layer_num];
 
-      double theta_e_k   = soil_properties[soil_num_k].theta_e;
-      double theta_r_k   = soil_properties[soil_num_k].theta_r;
-      double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
-      double vg_m_k      = soil_properties[soil_num_k].vg_m;
-      double vg_n_k      = soil_properties[soil_num_k].vg_n;
+    double theta_e_k   = soil_properties[soil_num_k].theta_e;
+    double theta_r_k   = soil_properties[soil_num_k].theta_r;
+    double vg_a_k      = soil_properties[soil_num_k].vg_alpha_per_cm;
+    double vg_m_k      = soil_properties[soil_num_k].vg_m;
+    double vg_n_k      = soil_properties[soil_num_k].vg_n;
 
-      double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
+    double Ksat_cm_per_h_k  = frozen_factor[current->layer_num] * soil_properties[soil_num_k].Ksat_cm_per_h;
 
-      double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+    double Se = calc_Se_from_theta(current->theta,theta_e_k,theta_r_k);
+
+    if (current->psi_cm>1.0)
       current->psi_cm = calc_h_from_Se(Se, vg_a_k, vg_m_k, vg_n_k); 
-      current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
-    }
+
+    current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h_k, vg_m_k);
     current = current->next;
 
   }
@@ -1694,7 +1695,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       double next_vg_a      = soil_properties[soil_num_next].vg_alpha_per_cm;
       double next_vg_m      = soil_properties[soil_num_next].vg_m;
       double next_vg_n      = soil_properties[soil_num_next].vg_n;
-      //double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[current->layer_num]; 
+      double next_Ksat_cm_per_h  = soil_properties[soil_num_next].Ksat_cm_per_h * frozen_factor[layer_num+1];
 
       double Se = calc_Se_from_theta(current->theta,theta_e, theta_r);
       current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
@@ -1716,6 +1717,7 @@ extern void lgar_wetting_fronts_cross_layer_boundary(int num_layers,
       
       next->theta = theta_new;
       next->psi_cm = current->psi_cm;
+      next->K_cm_per_h = calc_K_from_Se(calc_Se_from_theta(theta_new, next_theta_e, next_theta_r), next_Ksat_cm_per_h, next_vg_m);
       next->depth_cm = depth_new;
       next->layer_num = layer_num + 1;
       next->dzdt_cm_per_h = current->dzdt_cm_per_h;
-- 
2.43.0


From 64c89721174fa97e4ae2cc64b3c183cdb6b8a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:09 +0000
Subject: [PATCH 19/34] fix: calibrated van Genuchten parameters left the
 Brooks-Corey estimates of the closed-form G unchanged

---
 src/bmi_lgar.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 3088e67..11c56bf 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -629,6 +629,14 @@ update_calibratable_parameters()
     state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+
+    // the Brooks & Corey estimates depend on vg_n and vg_alpha (see lgar_read_vG_param_file)
+    double p = 1.0 + 2.0/state->soil_properties[soil].vg_m;
+    double lambda = 2.0/(p - 3.0);
+    state->soil_properties[soil].bc_lambda  = lambda;
+    state->soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * state->soil_properties[soil].vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    state->soil_properties[soil].h_min_cm   = state->soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
-- 
2.43.0


From 50ec3add66c42a9630c7e51ab37cf252658b3652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:24 +0000
Subject: [PATCH 20/34] fix: calibrating one of two layers with the same soil
 type changed both

---
 src/lgar.cxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 039bf7c..036f891 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -566,7 +566,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1](); // entry 0 stays empty
+    // entry 0 stays empty, the entries after num_soil_types are for layers with the same soil type
+    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+state->lgar_bmi_params.num_layers+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
@@ -597,6 +598,20 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       }
       std::cerr<<"          *****         \n";
     }
+
+    // soil properties can be calibrated for each layer, so layers with the same soil type get their own copy of them
+    int num_entries = num_soil_types;
+    for (int layer=2; layer <= state->lgar_bmi_params.num_layers; layer++) {
+      int soil = state->lgar_bmi_params.layer_soil_type[layer];
+      for (int above=1; above < layer; above++) {
+	if (state->lgar_bmi_params.layer_soil_type[above] == soil) {
+	  num_entries++;
+	  state->soil_properties[num_entries] = state->soil_properties[soil];
+	  state->lgar_bmi_params.layer_soil_type[layer] = num_entries;
+	  break;
+	}
+      }
+    }
   }
   else {
     stringstream errMsg;
-- 
2.43.0


From b9af2837fed527a5eda608073d9b68a181ac7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 21/34] fix: a layer_soil_type list shorter than
 layer_thickness was read past its end

---
 src/lgar.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 036f891..1a10494 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -229,6 +229,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   bool is_endtime_set               = false;
   bool is_forcing_resolution_set    = false;
   bool is_layer_soil_type_set       = false;
+  int  num_layer_soil_types         = 0;
   bool is_wilting_point_psi_cm_set  = false;
   bool is_field_capacity_psi_cm_set = false;
   bool is_soil_params_file_set      = false;
@@ -301,6 +302,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       	state->lgar_bmi_params.layer_soil_type[layer] = vec[layer-1];
 
       is_layer_soil_type_set = true;
+      num_layer_soil_types = vec.size();
 
       continue;
     }
@@ -560,6 +562,12 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     errMsg << "The configuration file \'" << config_file <<"\' does not set layer_soil_type. \n";
     throw runtime_error(errMsg.str());
   }
+
+  if (num_layer_soil_types < state->lgar_bmi_params.num_layers) {
+    stringstream errMsg;
+    errMsg << "The configuration file \'" << config_file <<"\' sets layer_soil_type for fewer layers than layer_thickness. \n";
+    throw runtime_error(errMsg.str());
+  }
     
   if(is_soil_params_file_set) {
     //allocate memory to create an array of structures to hold the soils properties data.
-- 
2.43.0


From 6b3cf4ecda635ea995b0de67b173c787f95367db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:02 +0000
Subject: [PATCH 22/34] fix: grid spacing and origin were uninitialised memory

---
 src/lgar.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 1a10494..cd5e83f 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -77,6 +77,8 @@ extern void lgar_initialize(string config_file, struct model_state *state)
   InitFromConfigFile(config_file, state);
   state->lgar_bmi_params.shape[0] = state->lgar_bmi_params.num_layers;
   state->lgar_bmi_params.shape[1] = state->lgar_bmi_params.num_wetting_fronts;
+  state->lgar_bmi_params.spacing[0] = 1.0;
+  state->lgar_bmi_params.origin[0]  = 0.0;
 
   // initial number of wetting fronts are same are number of layers
   state->lgar_bmi_params.num_wetting_fronts           = state->lgar_bmi_params.num_layers;
-- 
2.43.0


From 6a25032900a4664003a0fbe6a55a2ee203a88223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:43 +0000
Subject: [PATCH 23/34] fix: a wetting front deleted for falling below theta_r
 was written to after it was freed

---
 src/lgar.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index cd5e83f..d91fb64 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1245,6 +1245,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
         listDeleteFront(current->front_num, head);
+        current = NULL; // the wetting front is gone, there is nothing left to update
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
@@ -1341,8 +1342,10 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
       }
 
-      double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
-      current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      if (current != NULL) {
+	double Se = calc_Se_from_theta(current->theta,theta_e,theta_r);
+	current->psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
+      }
 
     }
   
-- 
2.43.0


From eaa29cd3a14a55b2063fe332dd19ac7162c88609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:40 +0000
Subject: [PATCH 24/34] fix: the stand-alone program lost the last step when
 the forcing resolution is not exact in hours

---
 src/bmi_main_lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmi_main_lgar.cxx b/src/bmi_main_lgar.cxx
index a106c8b..f910d5d 100644
--- a/src/bmi_main_lgar.cxx
+++ b/src/bmi_main_lgar.cxx
@@ -77,7 +77,7 @@ int main(int argc, char *argv[])
   // get time steps
   double endtime = model_state.GetEndTime();
   double timestep = model_state.GetTimeStep();
-  int nsteps = int(endtime/timestep); // total number of time steps
+  int nsteps = int(endtime/timestep+1.0e-08); // total number of time steps; add 1.0e-08 to prevent truncation error
 
   std::vector<std::string> time;
   std::vector<double> precipitation;
-- 
2.43.0


From c250b9851b7d01afa7071935731da986a8ebfc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:20 +0000
Subject: [PATCH 25/34] fix: a soil name longer than allowed overran the name
 buffers before it was rejected

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index d91fb64..8f8eb8e 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2337,10 +2337,10 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
-- 
2.43.0


From 98f8eb234773715828f6d0588b48d54beca79187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:54 +0000
Subject: [PATCH 26/34] fix: several wetting fronts passing each other in one
 timestep left the profile out of order

---
 include/all.hxx |  1 +
 src/lgar.cxx    | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/include/all.hxx b/include/all.hxx
index 2f74749..77dd3a4 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -317,6 +317,7 @@ extern void lgar_fix_dry_over_wet_wetting_fronts(double *mass_change, double* cu
 
 // checks if dry over wet wetting front exists or not
 extern bool lgar_check_dry_over_wet_wetting_fronts(struct wetting_front* head);
+extern bool lgar_check_unordered_wetting_fronts(struct wetting_front* head);
 
 // finds free drainage wetting front (the deepest wetting front with psi value closer to zero; saturated in terms of psi)
 extern int wetting_front_free_drainage(struct wetting_front* head);
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 8f8eb8e..fd193da 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1502,6 +1502,22 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
 
   lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
 
+  // ******************* REPEAT UNTIL FRONTS ARE ORDERED ********************
+  // merging can leave a wetting front below its layer, and crossing can make it pass fronts of the next layer;
+  // each pass moves a front to a lower layer or removes one, so the number of passes is limited
+  int max_passes = num_layers * listLength(*head);
+
+  for (int pass=0; pass < max_passes && lgar_check_unordered_wetting_fronts(*head); pass++) {
+
+    lgar_wetting_fronts_cross_layer_boundary(num_layers, cum_layer_thickness_cm, soil_type, frozen_factor,
+					     head, soil_properties);
+
+    if (lgar_check_dry_over_wet_wetting_fronts(*head))
+      lgar_fix_dry_over_wet_wetting_fronts(&mass_change, cum_layer_thickness_cm, soil_type, head, soil_properties);
+
+    lgar_merge_wetting_fronts(soil_type, frozen_factor, head, soil_properties);
+  }
+
   // ************************ CROSS BOUNDARY ********************************
   
   //lower bound
@@ -1653,6 +1669,11 @@ extern void lgar_merge_wetting_fronts(int *soil_type, double *frozen_factor, str
         printf ("Deleting wetting front (after) ... \n");
         listPrint(*head);
       }
+
+      // start over, as the merged front may have passed the next one too, or been passed by the one above
+      current = *head;
+      wf = 0;
+      continue;
     }
     
     current = current->next;
@@ -1964,6 +1985,20 @@ extern bool lgar_check_dry_over_wet_wetting_fronts(struct wetting_front* head)
   return false;
 }
       
+// ############################################################################################
+/* The function checks if a wetting front lies below the next one (the lower boundary of the
+   domain is not considered, see lgar_wetting_front_cross_domain_boundary) */
+// ############################################################################################
+extern bool lgar_check_unordered_wetting_fronts(struct wetting_front* head)
+{
+  for (struct wetting_front *current = head; current->next != NULL && current->next->next != NULL; current = current->next) {
+    if (current->depth_cm > current->next->depth_cm)
+      return true;
+  }
+
+  return false;
+}
+
 // ############################################################################################
 /* The module computes the potential infiltration capacity, fp (in the lgar manuscript),
    potential infiltration capacity = the maximum amount of water that can be inserted into
-- 
2.43.0


From 2a4c8a361f604be1506552e3038657fa07c472f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:52 +0000
Subject: [PATCH 27/34] fix: the water a dried-out profile could not balance
 was booked as AET with the wrong sign

---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index fd193da..e44cd93 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2705,7 +2705,8 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
   //If we get to the case where theta<theta_r would be necessary for mass balance closure, then the above loop will break before delta_mass <= tolerance.
   //In this rare case, the remaining mass balance error is put into AET. 
   if ((delta_mass > tolerance) && (!wanted_to_saturate_flag)){//the second condition is necessary because count_no_mass_change == break_no_mass_change in the loop above will trigger when the model approaches saturation; in this event the extra water should go into runoff (handled eslewhere), because the soil saturates, rather than AET
-    *AET_demand_cm = *AET_demand_cm - fabs(delta_mass - tolerance);
+    //The error is signed: the last step of psi can also leave less water than there should be, which then is AET too.
+    *AET_demand_cm = *AET_demand_cm - (new_mass - prior_mass);
   }
 
   if ( (theta>=soil_properties[soil_num].theta_e) && (psi_cm_loc!=0.0) ){
-- 
2.43.0


From 81b07b357c2e874f20239205f74caa218fdc9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:22 +0000
Subject: [PATCH 28/34] fix: water a saturated profile could not balance was
 added to AET with either sign, giving AET above PET and negative percolation

---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index e44cd93..11255d1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1402,7 +1402,8 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
     iter++;
     if (iter>1e4) {
       break_flag = TRUE;
-      *AET_demand_cm = *AET_demand_cm + mass_balance_error;
+      //more water left than there should be: less was evaporated; water that does not fit leaves through the bottom (below)
+      *AET_demand_cm = fmax(*AET_demand_cm - fmax(current_mass - mass_timestep, 0.0), 0.0);
       actual_ET_demand = *AET_demand_cm;
       break;
     }
-- 
2.43.0


From 8bbcbb34f19787bcdd0451bda6c92a1f2a7f298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:22 +0000
Subject: [PATCH 29/34] fix: the iteration over suction of a dried-out profile
 stopped past the solution, evaporating more than the demand

---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 11255d1..b78f815 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2688,7 +2688,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
     if (count_no_mass_change == break_no_mass_change)
       break;
     
-    if (psi_cm_loc > 1e7){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
+    if (psi_cm_loc > 1e7 && new_mass > prior_mass){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
       break;
     }
@@ -2707,7 +2707,7 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
   //In this rare case, the remaining mass balance error is put into AET. 
   if ((delta_mass > tolerance) && (!wanted_to_saturate_flag)){//the second condition is necessary because count_no_mass_change == break_no_mass_change in the loop above will trigger when the model approaches saturation; in this event the extra water should go into runoff (handled eslewhere), because the soil saturates, rather than AET
     //The error is signed: the last step of psi can also leave less water than there should be, which then is AET too.
-    *AET_demand_cm = *AET_demand_cm - (new_mass - prior_mass);
+    *AET_demand_cm = fmax(*AET_demand_cm - (new_mass - prior_mass), 0.0);
   }
 
   if ( (theta>=soil_properties[soil_num].theta_e) && (psi_cm_loc!=0.0) ){
-- 
2.43.0


From 98bb19137bb43a0237225c050ab34d359fa10f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:19 +0000
Subject: [PATCH 30/34] fix: rain that fills the ponded depth exactly to its
 maximum did not infiltrate and left the pond above the maximum

---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b78f815..da5cd05 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2139,7 +2139,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From a6349d1533cfe3c5c9e79f39a78477f1ae3186a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 31/34] fix: soils with a blank in their name (Sandy-clay loam)
 silently got the properties of the soil above them in the table

---
 src/lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index da5cd05..54710e5 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2373,7 +2373,9 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    // soil names in quotes may contain blanks
+    char const *format = strchr(jstr,'"') != NULL ? " \"%29[^\"]\" %lf %lf %lf %lf %lf" : "%29s %lf %lf %lf %lf %lf";
+    sscanf(jstr,format,soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     length=strlen(soil_name);
 
     if(length>=MAX_SOIL_NAME_CHARS) {
-- 
2.43.0


From 15cb5b33973078f45df1820b7a4438e3f45294cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 32/34] fix: empty lines and incomplete rows of the soil table
 were taken for soils

---
 src/lgar.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 54710e5..f7329be 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2375,7 +2375,16 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
 
     // soil names in quotes may contain blanks
     char const *format = strchr(jstr,'"') != NULL ? " \"%29[^\"]\" %lf %lf %lf %lf %lf" : "%29s %lf %lf %lf %lf %lf";
-    sscanf(jstr,format,soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    int num_read = sscanf(jstr,format,soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+
+    if (num_read < 1) // empty line
+      continue;
+
+    if (num_read < 6) {
+      printf("While reading vG soil parameter file: %s, can't read this line: %s",vG_param_file_name,jstr);
+      printf("Program stopped.\n"); exit(-1);
+    }
+
     length=strlen(soil_name);
 
     if(length>=MAX_SOIL_NAME_CHARS) {
-- 
2.43.0


From 07555f0c40d7c70e8a55e1ccebbea27ad419e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 33/34] fix: the search for the suction of a bone-dry profile
 ended before it could hold the added water, which then was booked as AET

---
 src/lgar.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index f7329be..24ad66d 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2696,8 +2696,16 @@ extern double lgar_theta_mass_balance(int layer_num, int soil_num, double psi_cm
       count_no_mass_change = 0;
 
     // break the loop if the mass does not change in the five consecutive iterations.
-    if (count_no_mass_change == break_no_mass_change)
-      break;
+    if (count_no_mass_change == break_no_mass_change) {
+      if (new_mass < prior_mass && delta_mass > 1E-9 && psi_cm_loc > 1E3) {
+	// theta is so close to theta_r that it hardly depends on psi; the head that can hold the water is far below
+	psi_cm_loc *= 0.1;
+	factor = fmax(1,psi_cm_loc/100);
+	count_no_mass_change = 0;
+      }
+      else
+	break;
+    }
     
     if (psi_cm_loc > 1e7 && new_mass > prior_mass){//there are rare cases where theta is very close to theta_r, and delta_mass - delta_mass_prev will change extremely slowly. Convergence might be possible but the model will take hours to converge rather than seconds. 
     //an alternative solution was to change the threshold in if (fabs(delta_mass - delta_mass_prev) < 1e-15) to 1e-11, but that solution is somewhat slow. 
-- 
2.43.0


From 5712cba26df301f43a2fcc4f03bc3e7d0a2b791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 34/34] fix: a time in an unknown unit was taken for hours or
 left uninitialised

---
 src/lgar.cxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 24ad66d..9042921 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -434,6 +434,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.timestep_h /= 60; // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.timestep_h /= 1.0; // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The unit " << param_unit << " of timestep is not known. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.timestep_h > 0);
       is_timestep_set = true;
@@ -458,6 +463,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 3600.0;
       else if (param_unit == "[d]" || param_unit == "[day]")
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 86400.0;
+      else {
+	stringstream errMsg;
+	errMsg << "The unit " << param_unit << " of endtime is not known. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.endtime_s > 0);
       is_endtime_set = true;
@@ -479,6 +489,11 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.forcing_resolution_h /= 60;                 // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.forcing_resolution_h /= 1.0;               // convert to hours
+      else {
+	stringstream errMsg;
+	errMsg << "The unit " << param_unit << " of forcing_resolution is not known. \n";
+	throw runtime_error(errMsg.str());
+      }
 
       assert (state->lgar_bmi_params.forcing_resolution_h > 0);
       is_forcing_resolution_set = true;
-- 
2.43.0

