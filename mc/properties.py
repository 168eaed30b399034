"""Which module decides which property, in which build, with which time budget; the bounds are stated for the evidence."""
FAM_Q = ("12 soil columns x 8 option sets (ponding depth, capillary drive, adaptive/fixed/non-dividing timestep, 15 min to 2 h forcing) with every "
         "sequence of 4 symbols of the 6-symbol forcing alphabet, and all 18x18 ordered soil pairs with every sequence of 3 of 7 symbols")
FAM_T = ("12 soil columns x 8 option sets x 4 initial suctions with every sequence of 5 of 6 and of 4 of 7 symbols, and all 18x18 soil pairs x 8 option "
         "sets with every sequence of 4 of 7 symbols")
EXTRA_Q = ("; plus 18 columns (6 odd ones: 6 and 8 layers, films, clay lens, 5 m) x 8 option sets: every sequence of 2 of 5 pulse symbols and 1 of 6 edge symbols from the state "
           "one of four long histories leads to, every sequence of 3 of 6 edge symbols (values at the thresholds of the code, half of them advanced by UpdateUntil), every sequence of 2 of 7 on the odd columns")
EXTRA_T = ("; plus 18 columns x 8 option sets: every sequence of 4 of 5 pulse symbols and 3 of 6 edge symbols from the states of four long histories, every sequence of 5 of 6 edge symbols "
           "and (odd columns) of 4 of 7 symbols from 4 initial suctions")
FROST_Q = "; plus 18 columns x 8 option sets coupled to soil temperatures that change with every symbol, every sequence of 3 of 6 symbols"
FROST_T = "; plus 18 columns x 8 option sets x 4 assignments of temperature profiles to symbols, every sequence of 4 of 6 symbols"
MORE_Q = ("; plus 18 columns x 8 option sets with every sequence of 3 of 6 symbols that combine rain and evaporation up to complete saturation; plus all ordered pairs of the 12 catalogue soils "
          "of data/README.md and of 8 corners of the parameter ranges documented there, every sequence of 3 of 7 symbols")
MORE_T = ("; plus 18 columns x 8 option sets x 4 initial suctions with every sequence of 4 of 6 symbols that combine rain and evaporation up to complete saturation; plus all ordered pairs of the 12 "
          "catalogue soils of data/README.md and of 8 corners of the parameter ranges documented there x 8 option sets, every sequence of 4 of 7 symbols")
SUB = "; plus sub-stepped option sets on which a twin instance takes every sub-step as an Update of its own"
FAM_Q += EXTRA_Q + MORE_Q
FAM_T += EXTRA_T + MORE_T
PROPS = {}


def p(pid, module, quick, thorough, **kw):
    PROPS[pid] = dict(module=module, bounds={"quick": quick, "thorough": thorough}, **kw)


for pid in ("C01", "C21"):
    p(pid, "hydro", FAM_Q + FROST_Q, FAM_T + FROST_T)
FILL = "; plus, after every history of up to %d symbols on the columns and option sets with ponding, the rain rate that just fills the pond located to the last bit, and its neighbours"
p("C02", "hydro", FAM_Q + FROST_Q + SUB + FILL % 2, FAM_T + FROST_T + SUB + FILL % 4)
EXT = "; plus extreme histories (300 dry days, deluge, soaking) from nearly saturated and very dry initial states, depth "
for pid in ("C04", "C05"):
    p(pid, "hydro", FAM_Q + FROST_Q + EXT + "3", FAM_T + FROST_T + EXT + "4")
p("C06", "hydro", FAM_Q + FROST_Q + SUB + "; plus 4 field-capacity/wilting-point pairs with every sequence of 3 of 5 symbols",
  FAM_T + FROST_T + SUB + "; plus 4 field-capacity/wilting-point pairs x all columns and option sets with every sequence of 5 of 5 symbols")
p("C19", "hydro", FAM_Q + "; plus gentle-rain alphabet, depth 4", FAM_T + "; plus gentle-rain alphabet, depth 6")
p("C03", "flux", FAM_Q + FROST_Q + "; every prefix of every history is also finalised and its summary compared",
  FAM_T + FROST_T + "; every prefix of every history is also finalised and its summary compared")
p("C07", "flux", "12 ordinate lists (1 to 60 ordinates, with zeros) x 10 forcing resolutions (5 min to 10 h), every runoff history of 5 of 4 symbols, finalised after every prefix",
  "as quick, both soil columns, every runoff history of 7 of 4 symbols")
p("C08", "flux", "9 model timesteps x 6 forcing intervals x adaptive/fixed, every sequence of 4 of 6 advance operations (Update and UpdateUntil with different targets and rates)" + SUB + "; every history of 1 to 4 Updates in runs that end with it; runs of 3000 to 50000 intervals with and without soil, step by step and in one call",
  "as quick on 3 soil columns each, every sequence of 5 of 6 advance operations" + SUB + "; every history of 1 to 6 Updates in runs that end with it; runs of 100000 intervals")
p("C20", "law", FAM_Q + SUB + "; plus 12 columns x 5 option sets with one sub-step per Update, every sequence of 4 of 5 symbols",
  FAM_T + SUB + "; plus 12 columns x 5 option sets x 3 initial suctions with one sub-step per Update, every sequence of 6 of 5 symbols")
p("C16", "law", "12 columns x 4 option sets x 3 temperature discretisations (half of the combinations): every sequence of 2 of 24 symbols (6 temperature profiles x 4 forcings) and of 4 of 6 symbols (2 profiles x 3 forcings); and of 3 of 12 symbols over 4 profiles that share sum, range, first or last value",
  "12 columns x 4 option sets x 3 temperature discretisations, every sequence of 4 of 24 symbols, and of 4 of 16 symbols over 4 profiles that share sum, range, first or last value")
p("C12", "iface", "8 configurations (with and without temperature coupling and calibration), every sequence of 3 of 19-21 interface operations (set by value, pointer, indices on inputs, parameters and outputs; unknown names; Update; UpdateUntil) and of 4 of 8 of them",
  "8 configurations, every sequence of 4 of 19-21 and of 6 of 8 interface operations")
p("C13", "iface", "12 columns x 8 option sets (half of the combinations), with and without temperature coupling and calibration, all 25 variables, 5 grids and 8 unknown names after initialisation and every Update of every sequence of 4 of 5 forcing symbols",
  "12 columns x 8 option sets, every sequence of 6 of 5 forcing symbols")
p("C10", "iso", "all ordered pairs of 14 configurations (different soil tables, options, couplings, calibration, no soil, verbosity): all 252 interleavings of 5 operations each (Initialize, 3 forcing blocks, Finalize); 12 triples, all 1680 interleavings of 3 operations each",
  "all ordered pairs x 3 forcing programs, all 3432 interleavings of 7 operations each; triples, all 34650 interleavings of 4 operations each")
p("C11", "iso", "12 columns x 8 option sets, every sequence of 3 of 6 symbols under 4 memory contents/read settings; half of them under 3 verbosity settings, every sequence of 2 of 3 symbols",
  "12 columns x 8 option sets, every sequence of 4 of 6 and of 4 of 7 symbols under 4 memory contents/read settings; every sequence of 3 of 4 symbols under 3 verbosity settings")
p("C14", "conf", "6 configurations, all 128 subsets of the 7 calibratable parameters in all (or, for larger subsets, a third of the) subsets of layers, set by value, pointer or index, with changes of 10 %, 1 % and 0.1 % and to zero and extreme values, every sequence of 2 or 3 of 4 symbols, finalised after every prefix; 8 parameter subsets without the calibration switch",
  "10 configurations, all 128 parameter subsets x all layer subsets, every sequence of 3 or 4 of 4 symbols, finalised after every prefix")
p("C15", "conf", "6 values of max_valid_soil_types (one left out), every assignment of 12 soil types (valid, zero, negative, beyond the maximum, beyond the table) to 1, 2 or 3 layers, every sequence of 2 or 3 of 3 symbols",
  "as quick, every sequence of 4 of 3 symbols")
p("C17", "conf", "3 base configurations: all line swaps, all moves of one line, all rotations of the file and its reversal; all time units of all time quantities (and their combinations) with trailing text; 12 foreign lines at every position; every set of up to 3 missing mandatory keys (left out, commented out, misspelled); every invalid option value; every set of optional keys left at default; every unknown unit; times and numbers in several spellings; 24 sets of values that need all digits; soil tables in 10 x 5 x 3 x 2 x 4 x 2 row spellings and with empty lines anywhere, and all bundled tables, every soil type of each",
  "as quick, plus every permutation of every three lines and every set of missing mandatory keys")
p("C09", "mem", "8 configurations, every sequence of 3 of 12-15 interface operations (forcing, reads, writes, metadata, unknown names, parameters, temperatures), 12 columns x 8 option sets with every sequence of 3 of 6 forcing symbols, 108 soil pairs with every sequence of 2 of 7, odd, aged, edge, warm, frozen, catalogue and corner histories of the shared family with every sequence of 1 or 2 symbols; every prefix finalised and leak-checked; every line of 3 configurations mutated in 15 ways, all truncations",
  "8 configurations, every sequence of 4 of 12-15 interface operations, 12 columns x 8 option sets x 4 initial suctions with every sequence of 4 forcing symbols, all 18x18 soil pairs x 8 option sets with every sequence of 3 of 7, odd, aged, edge, warm, frozen, catalogue and corner histories with every sequence of up to 3 symbols; every prefix finalised and leak-checked; mutated configurations as quick",
  variant="asan", env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=4"})
p("C18", "prog", "a third of 12 columns x 8 option sets (incl. no soil, calibration, 2 unit hydrographs): every forcing file of 4 blocks of 4 symbols in 5 file styles and periods that end before the forcing; every period of 1 to 40 steps x 9 forcing resolutions x 7 unit spellings of the period x 3 of the resolution, each also with too short a forcing",
  "12 columns x 8 option sets: every forcing file of 6 blocks of 4 symbols; periods as quick", standalone=True)
