import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=s,meaning="state the property ranges over",where="include/all.hxx") for s in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
B="src/bmi_lgar.cxx";L="src/lgar.cxx";H="include/bmi_lgar.hxx"
HC="every valid configuration (layers, soils, initial state, timestep, forcing interval, ponding depth, capillary-drive option) and every sequence of rain and evaporation rates"
p("C01","Soil water is conserved in every time step",
 "In every Update the change of the reported soil storage equals infiltration minus percolation minus actual evapotranspiration, to numerical precision. The reported storage equals the depth integral of the reported moisture profile, also right after initialisation. No configuration or forcing history creates or loses soil water.",
 ["histories","configurations"],HC+"; checked after every Update",
 "the tests compare a few end-of-run numbers of a handful of storms; a leak in a merge, layer crossing or bottom exit shows only in particular front histories",
 [B,L],[("sub-step mass bookkeeping","BmiLGAR::Update"),("front movement with mass correction","lgar_move_wetting_fronts"),("merge / layer crossing / domain exit","lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_layer_boundary, lgar_wetting_front_cross_domain_boundary"),("profile integral","lgar_calc_mass_bal")],
 ["GetValue(soil_storage, infiltration, percolation, actual_evapotranspiration, soil_moisture_wetting_fronts, soil_depth_wetting_fronts)"],["wetting front list","lgar_mass_balance"])
p("C02","Rain is split into infiltration, runoff and bounded ponding",
 "In every Update precipitation equals infiltration plus surface runoff plus the change of water ponded on the surface. The ponded depth always lies between zero and the configured maximum, and infiltration and surface runoff are never negative. Water runs off in a sub-step only if the ponded depth reaches the configured maximum in it.",
 ["histories","configurations"],HC+"; checked after every Update",
 "ponding and its release need rain above the infiltration capacity followed by particular recessions; the tests sample few of them",
 [B,L],[("infiltration capacity and ponding","lgar_insert_water"),("new front and its surface water","lgar_create_surficial_front"),("surface bookkeeping","BmiLGAR::Update")],
 ["GetValue(precipitation, infiltration, surface_runoff)","ponded depth (derived from the outputs)"],["lgar_mass_balance.volon_timestep_cm"])
p("C03","Reported totals equal the sums of the step outputs",
 "The water balance summary printed at the end of a run reports exactly the accumulated step outputs: precipitation, infiltration, runoff, routed runoff, evapotranspiration, percolation, discharge, initial and final storage, water left on the surface and in the routing queue. The balance error it reports, and the per-step mass balance output, are zero to numerical precision and are the true residual of these terms. This holds at whichever step the run is ended.",
 ["histories","configurations"],HC+"; the run is ended after every prefix of the history",
 "the tests only look at one final summary per scenario; a total that misses one kind of step is wrong only for histories containing it",
 [B,L],[("global totals","BmiLGAR::Update"),("summary","lgar_global_mass_balance"),("mass_balance output","BmiLGAR::Update")],
 ["Finalize() summary on stdout","GetValue of all fluxes"],["lgar_mass_balance"])
p("C04","Moisture, suction and storage stay physical and finite",
 "After initialisation and after every Update the moisture of every wetting front lies between the residual and saturated content of its layer's soil, its suction is non-negative, and every reported number is finite. Soil storage never exceeds the pore space and never falls below the residual water.",
 ["histories","configurations"],HC+"; checked on every front after every Update",
 "extreme wetting and drying sequences and soil contrasts are what break clamps; tests use benign ones",
 [B,L,"src/soil_funcs.cxx"],[("retention and conductivity functions","calc_theta_from_h, calc_h_from_Se, calc_K_from_Se"),("mass-balance iteration for theta","lgar_theta_mass_balance")],
 ["GetValue(soil_moisture_wetting_fronts, soil_storage, ...)","wetting front list"],["wetting front list"])
p("C05","The wetting-front profile is always well formed",
 "After every Update fronts are ordered by depth (strictly, except that a newly formed front may sit exactly on the bottom of the top layer, and one that has just crossed a boundary with hardly any water exactly on that boundary) and numbered consecutively, every layer ends with exactly one front at its bottom, no front lies outside its layer, and within a layer moisture never increases downwards. Moisture and suction of every front obey the layer's retention curve, and suction is continuous across layer boundaries wherever one front spans them. The arrays of front depths and moistures reported to users describe this same profile, with the reported count.",
 ["histories","configurations"],HC+"; checked on the complete profile after every Update",
 "the structure is an inductive invariant over merging, layer crossing, drying and bottom exit in any order",
 [B,L,"src/linked_list.cxx"],[("list surgery","listInsertFront, listDeleteFront, listInsertFrontAtDepth"),("merging and crossing","lgar_merge_wetting_fronts, lgar_wetting_fronts_cross_layer_boundary"),("dry-over-wet repair","lgar_fix_dry_over_wet_wetting_fronts"),("output arrays","BmiLGAR::Update")],
 ["GetValue(soil_num_wetting_fronts, soil_depth_wetting_fronts, soil_moisture_wetting_fronts)","wetting front list"],["wetting front list"])
p("C06","Evapotranspiration obeys demand and soil suction",
 "Actual evapotranspiration never exceeds the potential one, is never negative, and is zero when the potential is zero. In every sub-step it is the potential amount multiplied by the documented S-shaped reduction factor of the suction of the topmost front, whose half-way point follows from field capacity and wilting point. It is smaller than that only in a step in which a front dries out or the profile is at saturation or at residual content, and never larger.",
 ["histories","configurations"],HC+"; the reduction law is checked on every Update whose sub-step equals the forcing interval",
 "the law must hold at every suction the model can reach, tests fix a few",
 ["src/aet.cxx",B],[("reduction factor","calc_aet"),("extraction","BmiLGAR::Update, lgar_move_wetting_fronts")],
 ["GetValue(actual_evapotranspiration, potential_evapotranspiration)"],["wetting front list"])
p("C07","Surface runoff is routed by the unit hydrograph exactly",
 "The routed runoff of every step is the convolution of the surface runoff of this and all earlier steps with the unit hydrograph, whose hourly ordinates are spread over the forcing intervals they overlap. Total discharge is routed runoff plus groundwater contribution, and all runoff that has not left yet is still in the routing queue. This holds for any number of ordinates and any forcing resolution.",
 ["histories","configurations"],"every runoff history up to the bound, for every ordinate list and forcing resolution of the grid",
 "a queue off by one or a mis-scaled ordinate shows only for particular ordinate counts, resolutions and runoff patterns",
 ["giuh/giuh.c",B,L],[("convolution queue","giuh_convolution_integral"),("ordinate scaling","InitFromConfigFile")],
 ["GetValue(surface_runoff, giuh_runoff, total_discharge)"],["giuh_runoff_queue"])
p("C08","Each Update covers exactly one forcing interval",
 "Every Update advances the clock by exactly one forcing interval and reports as precipitation and potential evapotranspiration the given rates times that interval. This holds for every model timestep, adaptive or fixed, whether or not it divides the interval, and at any time of the run up to its end. An Update gives what its sub-steps, taken one at a time, give. Advancing until a time gives the same state and outputs as the equivalent number of single Updates.",
 ["histories","configurations"],"every combination of model timestep, forcing interval and adaptive option in the grid, and every sequence of rates and of single and multi-step advances",
 "sub-step counts depend on combinations of timestep, resolution, rain and ponding that tests do not vary",
 [B,H],[("sub-step selection and loop","BmiLGAR::Update"),("UpdateUntil","BmiLGAR::UpdateUntil")],
 ["GetCurrentTime, GetTimeStep, GetValue(precipitation, potential_evapotranspiration)"],["state->lgar_bmi_params.time_s"])
p("C09","No valid history corrupts memory, crashes, hangs or leaks",
 "For every valid configuration and every order of interface calls and forcing values, the model never reads or writes outside its memory, never uses freed memory, never loops forever and never ends the process. After finalising, everything that was allocated has been released. Invalid configurations are rejected with an error, not with memory corruption.",
 ["histories","programs","configurations"],"every sequence of interface operations and forcing symbols up to the bound on instrumented code",
 "memory errors of list surgery and array resizing need particular front counts; plain tests do not even see them when they happen",
 [B,L,"src/linked_list.cxx",H],[("front arrays reallocated on every Update","BmiLGAR::Update, realloc_soil"),("list surgery","src/linked_list.cxx"),("release","BmiLGAR::Finalize")],
 ["process outcome, address/undefined/leak sanitizer"],["all heap objects"])
p("C10","Model instances do not influence each other",
 "Results of a model instance depend only on its own configuration and inputs. Creating, advancing, reading or finalising other instances in the same process, in any interleaving, changes no output.",
 ["schedules","histories"],"every interleaving of the operations of two (three) instances up to the bound, for all pairs of configurations",
 "the framework runs one instance per catchment in one process; tests run one at a time",
 [B,L,"giuh/giuh.c","src/aet.cxx"],[("all model state","struct model_state"),("process-wide variables","verbosity, giuh queue, static locals")],
 ["all GetValue outputs of each instance"],["process-wide variables"])
p("C11","Results are reproducible and independent of verbosity",
 "Two runs of the same configuration and forcing give bit-identical outputs in every step, whatever memory the process held before. The verbosity setting changes what is printed and nothing else. Reading outputs, at any time and in any number, never changes later results.",
 ["histories","configurations"],HC+"; repeated under different heap contents, verbosity settings and interleaved reads",
 "uninitialised state usually happens to be zero in a test process",
 [B,L],[("initialisation","lgar_initialize"),("verbosity blocks","all functions")],
 ["all GetValue outputs"],["all heap objects"])
p("C12","Interface get and set calls follow the interface contract",
 "A value set through the interface is what is read back, by value, by pointer and by indices, and nothing else changes until the next Update. The pointer, the copy and the indexed access of every variable agree after every call sequence. Unknown variable names are rejected with an error and change nothing.",
 ["histories","programs"],"every sequence of set, get, pointer, indexed get/set, and Update operations up to the bound, on every variable",
 "interface calls compose; a stale pointer or a wrong size appears only after particular sequences",
 [B,H],[("accessors","BmiLGAR::GetValuePtr, GetValue, SetValue, GetValueAtIndices, SetValueAtIndices")],
 ["BMI accessors"],["bmi variables"])
p("C13","Interface metadata is consistent with the data",
 "For every variable the reported item size, total byte count, grid, grid rank and size, type, units and location agree with each other, with the documented values and with the data actually exchanged, after initialisation and after every Update. Reported variable names and counts match what the accessors accept, and grid sizes follow the current number of layers and fronts.",
 ["histories","configurations"],"all variables and grids, after initialisation and after every Update of every history in the bound",
 "the number of fronts changes with history and the sizes must follow",
 [B,H],[("metadata tables","BmiLGAR::GetVarGrid, GetVarType, GetVarItemsize, GetVarUnits, GetVarNbytes, GetVarLocation, GetGrid*")],
 ["BMI metadata functions"],["number of wetting fronts"])
p("C14","Calibrated parameters act as if they had been configured",
 "Parameters set before the first Update with calibration enabled give the same results as a configuration that holds those values, for each layer separately. The change of stored water caused by new soil parameters is reported as such and nothing else is created or lost. Without calibration enabled, setting them has no effect on results.",
 ["histories","configurations"],"every subset of calibratable parameters and layers in the grid, with every forcing sequence up to the bound",
 "the one calibration test sets all parameters of one configuration at once",
 [B,L],[("parameter update","BmiLGAR::update_calibratable_parameters")],
 ["SetValue of calibratable parameters, all outputs, Finalize() summary"],["soil_properties"])
p("C15","Cells without soil pass rain through unchanged",
 "If any layer's soil type is not in the table of valid soils, every Update reports all precipitation as runoff and as total discharge in the same step, no infiltration, evapotranspiration, percolation or storage change, and a balanced total. Time advances as usual. Soil types up to the configured maximum that are in the table are simulated normally.",
 ["configurations","histories"],"every placement of every invalid soil type in one to three layers, every maximum, every forcing sequence up to the bound",
 "tests use valid soils only",
 [B,L],[("pass-through","BmiLGAR::Update"),("classification","InitFromConfigFile")],
 ["all outputs"],["is_invalid_soil_type"])
p("C16","Frozen soil only slows water down, per layer, within bounds",
 "With soil temperature coupling, each layer's conductivity is reduced by a factor that follows from the mean temperature of the temperature cells within the layer, is one at or above freezing and never below the lower bound. Temperatures at or above freezing everywhere give exactly the uncoupled results. The water balance holds for every temperature history, and changing temperatures act from the next Update on.",
 ["histories","configurations"],"every sequence of temperature profiles and forcing up to the bound, for every layering and temperature discretisation of the grid",
 "tests never couple temperatures",
 [L,B],[("factor","frozen_factor_hydraulic_conductivity"),("use","lgar_dzdt_calc, lgar_insert_water, lgar_calc_dry_depth")],
 ["all outputs under SetValue(soil_temperature_profile)"],["frozen_factor"])
p("C17","Configuration files mean what they say",
 "The meaning of a configuration does not depend on the order of its lines, on the unit a quantity is given in, on unknown keys or on text after a unit. Every mandatory key that is missing, every invalid option and every unknown time unit is rejected at initialisation; every optional key has its documented default. Row k of the soil table is soil type k with exactly the values it states, whatever its name looks like, also in the tables that come with the model.",
 ["configurations","inputs"],"every omitted key, every pairwise order of lines (and all rotations and the reversal), every unit of every quantity, every option value, every spelling of a soil table row within the grid, every bundled soil table",
 "tests use four fixed files",
 [L],[("parser","InitFromConfigFile, ReadVectorData"),("soil table","lgar_read_vG_param_file")],
 ["Initialize outcome and all outputs"],["lgar_bmi_params"])
p("C18","The stand-alone program writes what the interface reports",
 "The stand-alone program runs exactly the number of steps in the configured period, feeding the forcing rows in order, and each row of its two output files holds the time label and the interface outputs, respectively the complete front profile, of that step. Its summary is the one of the interface run.",
 ["inputs","configurations"],"every forcing file up to the bound over the forcing alphabet, for every configuration of the grid",
 "no test reads the output files",
 ["src/bmi_main_lgar.cxx"],[("driver loop","main"),("forcing reader","ReadForcingData"),("profile writer","write_state")],
 ["data_variables.csv, data_layers.csv, stdout"],[])
p("C19","Gentle rain infiltrates completely while the soil has room",
 "Rain that is less intense than the saturated conductivity of every layer never produces surface runoff or ponding as long as the top layer, and the soil as a whole, can still store it and no water stands on the surface. It does not matter what the soil went through before.",
 ["histories","configurations"],HC+"; checked on every Update with gentle rain",
 "needs the capacity formula to be right in every profile a history can reach",
 [L,B],[("infiltration capacity","lgar_insert_water"),("surficial front","lgar_create_surficial_front")],
 ["GetValue(infiltration, surface_runoff)"],["wetting front list"])
p("C20","Fronts and infiltration follow the documented flow laws",
 "Each moving front's speed is the documented Green-Ampt-type expression of its depth, moisture step, capillary drive, ponded head and the conductivities of the layers above it, and a front that meets nothing moves by its speed times the timestep. Under ponding, infiltration is limited by the documented capacity, and the first rain after a dry step on an unsaturated surface without ponded water forms a new front, which starts at the documented dry depth.",
 ["histories","configurations"],HC+" with one sub-step per Update; checked on every front after every Update",
 "tests compare a few aggregate numbers with wide tolerances",
 [L,"src/soil_funcs.cxx"],[("front speed","lgar_dzdt_calc"),("capillary drive","calc_Geff"),("capacity","lgar_insert_water"),("dry depth","lgar_calc_dry_depth")],
 ["wetting front list, GetValue(infiltration)"],["wetting front list"])
p("C21","Water moves only when something drives it",
 "Without rain, ponded water and evaporative demand no water infiltrates, runs off or evaporates. Percolation is never negative, occurs only when a wetting front reaches the bottom of the domain, and never exceeds the water stored above residual. With no rain storage never increases.",
 ["histories","configurations"],HC+"; checked after every Update",
 "spurious fluxes appear in particular recessions",
 [B,L],[("bottom exit","lgar_wetting_front_cross_domain_boundary"),("fluxes","BmiLGAR::Update")],
 ["GetValue(percolation, infiltration, surface_runoff, soil_storage)"],["wetting front list"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x['title'])<=80,(x['title'])
print(len(P))
