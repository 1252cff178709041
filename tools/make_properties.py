"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
S="src/ciceroscm/"
CE=S+"concentrations_emissions_handler.py"; IH=S+"input_handler.py"; CS=S+"ciceroscm.py"; PE=S+"perturbations.py"
UD=S+"thermal_model/upwelling_diffusion_model.py"; TL=S+"thermal_model/two_layer_ocean.py"
CA=S+"carbon_cycle/carbon_cycle_abstract.py"; CM=S+"carbon_cycle/carbon_cycle_mod.py"; CB=S+"carbon_cycle/carbon_cycle_mod_box.py"
RF=S+"carbon_cycle/rfuns.py"; PU=S+"pub_utils.py"; UT=S+"_utils.py"
PW=S+"parallel/cscmparwrapper.py"; PP=S+"parallel/_parallel_process.py"; CD=S+"parallel/_configdistro.py"; DR=S+"parallel/distributionrun.py"
FR=S+"formattingtools/reformat_cscm_results.py"
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs or ["CICEROSCM(cfg)._run(...) and .results"],"hook_needed":None}})

p("A01","A run does not depend on the runs made before it on the same model",
 "A run on a model object gives the same results as the same run on a newly made model object with the same configuration, whatever runs (with other thermal, emission/concentration or carbon parameters, other output options, single-component runs) were made on it before. Nothing of an earlier run's parameters, state or results shows up in a later run, and results already handed out are not changed by a later run; the only exception is by design: carbon cycle parameters stay as last given until given again.",
 ["histories","configurations"],"every ordered history of runs on one object over an alphabet of runs touching each parameter set and option, for each kind of run (emission, concentration, forcing; each thermal and carbon model)",
 "Tests make one or two runs on an object with one parameter change; leaks need a particular pair or triple of runs.",
 [CS,CE,CM,CB,UT],[("results and arrays are reset at the start of each run",CS+":_run"),("parameters start from defaults again",CE+":reset_with_new_pams"),("carbon state reset",CM+":reset_co2_hold")])
p("A02","What the caller passes in is never modified",
 "Building a model, running it, running an ensemble, making a distribution or using the formatting and data helpers leaves every object the caller passed in (configuration dictionaries, data tables, parameter sets, scenario and configuration lists, perturbation tables) with exactly the same contents as before.",
 ["inputs","histories","configurations"],"every public entry point, every kind of run and every subset of optional inputs",
 "Tests build their inputs anew for each case and never compare them afterwards.",
 [CS,IH,CE,PE,PW,CD,PU],[("copies of tables and dictionaries",IH+":get_data"),("copies of parameter sets",UT)],["contents of all arguments before and after"])
p("A03","Model objects in one process do not influence each other",
 "Two model objects in the same process give the same results as each would alone, also when their construction and runs interleave in time (threads or nested use), whatever their configurations.",
 ["schedules","configurations"],"every switch point at a function call of the package, every pair of kinds of models, bounded number of switches",
 "Tests run one model at a time; shared module or class level state only shows in particular interleavings.",
 [CS,CE,CM,CB,UD,TL,IH],[("all state lives on the object",CS+":CICEROSCM"),("default dictionaries are copied","all required-parameter dictionaries")])
p("B01","Ensemble runs give every scenario-configuration pair once, as if run alone",
 "For any number of scenarios, configurations and workers, a parallel ensemble returns, for each requested variable, exactly one time series for each scenario and configuration pair, labelled with that scenario, configuration index, run id, variable and unit, holding the numbers a single run of that scenario with that configuration gives. Completion order of the workers does not matter, and a failing run is reported as an error instead of being dropped.",
 ["schedules","configurations","fault_sequences"],"all numbers of scenarios, configurations, workers up to a bound, all completion orders of the batches, each single failing pair",
 "Tests run one or two sizes with one worker count and check a few columns.",
 [PW,DR,FR],[("batching over scenarios or configurations",PW+":run_ciceroscm_parallel"),("run of one batch",PW+":run_over_cfgs")],["rows of the returned data frame"])
p("B02","The parallel map keeps order, runs every job once and reports failures",
 "Mapping a function over a sequence of jobs, serially or in a worker pool, with any numbers of jobs run up front serially and in parallel, with positional or keyword arguments, calls the function exactly once for each job and returns the results in the order of the jobs, whatever the order in which workers finish. If any job fails, the failure reaches the caller as that exception, and jobs that do not finish within a given time limit are reported as an error.",
 ["schedules","fault_sequences","configurations"],"all numbers of jobs and front sizes up to a bound, all completion orders, every failing job",
 "Tests use a single pool and size; order of completion is not controlled.",
 [PP],[("futures kept in submission order",PP+":_run_parallel"),("serial front and rest concatenated",PP+":_parallel_process")],["return value, calls made, exceptions"])
p("C01","Distributions draw the asked parameters in range and for the right component",
 "A parameter distribution gives exactly the requested number of configurations, each with one value for each varying parameter and the given value for each fixed parameter (fixed wins over varying), each in the parameter set of the model component that reads it (thermal, carbon cycle, or emissions and concentrations; forcing-only distributions hold thermal parameters only among the varying ones). With Latin hypercube sampling each parameter has exactly one value in each of the equal-width strata of its interval; with Gaussian sampling values follow the mean and standard deviation given by the interval's centre and half width.",
 ["configurations","inputs"],"every parameter name known to the model, varying or fixed, pairs of them, both methods, both run kinds, sample sizes up to a bound",
 "Tests check a few names and one sample size.",
 [CD],[("routing by name",CD+":make_single_config_list"),("scaling of samples",CD+":get_samples_from_distro_latin")],["the list of configurations"])
p("C02","Configuration lists survive chunking and storage in files unchanged",
 "Splitting a distribution in chunks of any size gives consecutive chunks of at most that size that together hold each sample exactly once, with an index unique over all chunks that carries the given prefix. Every list is written to its own file, and reading such a file back and writing it again keeps the same configurations in the same order and the meta information; a file in neither of the two layouts (list, or dictionary with configurations) is refused.",
 ["configurations","histories"],"all sample counts and chunk sizes up to a bound, file names with and without dots in folder or suffix, with and without meta information, write-read-write sequences",
 "Tests use one count and chunk size and one file name.",
 [CD,DR],[("chunk loop",CD+":make_config_lists"),("json reader and writer",DR)],["lists and json files"])
p("D01","Inputs sent as files or as data give the same results",
 "Each input (gas table, emissions, concentrations, natural emissions, land use, solar and volcanic forcing, perturbations, forcing) may be given as a file or as data in memory, in any combination, and the results are the same; when both are given the file is used. Rows of an input file for years outside the run have no influence on the results.",
 ["configurations","inputs"],"all subsets of the inputs given as files against data, all file layouts the readers accept",
 "Tests use fixed files; combinations of file and data inputs are mostly untested.",
 [IH],[("one reader for each input",IH+":get_data")])
p("D02","Inputs act in the calendar year they are given for",
 "Every value in an input series affects the run in exactly the calendar year it stands for (its label in tables with years; the row counted from 1750 in headerless files; the row counted from the first year of the run in unlabelled data), whatever the first and last year of the run, the year emissions take over, and the years a table covers beyond the run. Results have exactly one value for each year from the first to the last year of the run, labelled with that year.",
 ["inputs","configurations"],"every start year, end year, emission start, table start and end in a window, for every input series",
 "Tests use runs that start in 1750 (or one other year) with tables that start in the same year.",
 [IH,CS,CE],[("cutting and indexing by year",IH+":read_inputfile, read_data_on_year_row"),("row index from year",CS+":_run")])
p("D03","Unusable configurations are refused, usable ones are not",
 "A configuration that lacks a required input, names a file that does not exist, has emission or concentration units that disagree with the gas table, or names an unknown thermal or carbon model is refused with an error and never yields results computed from something else. Missing optional inputs fall back to their documented defaults.",
 ["configurations","fault_sequences"],"each single and pairwise removal or corruption of an input in each kind of run",
 "Tests remove a few inputs one at a time.",
 [IH,CS,S+"component_factory_functions.py"],[("input checks",IH+":check_inputfiles, _check_gaspam_compatibility"),("factories",S+"component_factory_functions.py")],["exception or results"])
p("D04","Emission perturbations add to exactly the named gas and year",
 "A run with an emission perturbation table is the same as a run with emissions to which each perturbation has been added in its year (perturbations of CO2 go to fossil emissions), repeated rows adding up, in any row order. Nothing but the named component and year changes in the emissions used.",
 ["inputs","configurations"],"all perturbation tables up to a number of rows over all species and years of the run, including duplicates and both orders",
 "Tests use one perturbation file.",
 [PE,CE],[("adding perturbations",PE+":perturb_emissions")])
p("D05","Forcing perturbations add to exactly the named component and year",
 "A forcing perturbation is added in its year to the forcing of its component, to the total and to both hemispheres with that component's hemispheric weights; several perturbations in one year or of one component add up and row order does not matter. All other components and years keep their forcing.",
 ["inputs","configurations"],"all perturbation tables up to a number of rows over all components and years",
 "Tests use one perturbation file with one component a year.",
 [PE,CE],[("adding perturbations",PE+":add_forcing_pert, add_forcing_pert_for_vanilla")])
p("E01","Gases with one lifetime follow their one-box mass balance exactly",
 "For every gas with a single constant lifetime the emission-driven concentration follows the exact solution of its one-box mass balance, year by year, from its own anthropogenic plus natural emissions, lifetime and mass-to-concentration factor and the previous year's concentration. It stays finite for any emissions, zero and negative included, and does not depend on other gases.",
 ["inputs","histories"],"every gas of the table, all emission sequences over an alphabet up to a depth, all start years, natural emissions, lifetimes from much below to much above a year",
 "Tests compare one scenario with stored output to loose tolerance.",
 [CE],[("vectorised precalculation",CE+":_precalculate_concentrations_vanilla_gases")])
p("E02","Methane and nitrous oxide follow their budgets with the chosen lifetime rule",
 "Emission-driven methane and nitrous oxide follow the exact one-box solution of their budget with anthropogenic plus natural emissions of the same year, methane with its chosen lifetime rule (dependence on methane, NOx, CO and NMVOC relative to year 2000; dependence on concentration; fixed 12 years; or tabulated constant) plus its two further sinks. The rule in use is the one selected in the run's parameters, and no other.",
 ["inputs","configurations","histories"],"all emission sequences over an alphabet up to a depth for CH4, N2O, NOx, CO, NMVOC, every lifetime rule, natural emissions constant or given by year",
 "Tests fix the rule and scenario.",
 [CE,IH],[("one box update",CE+":emi2conc"),("lifetime rules",CE+":methane_lifetime"),("flat natural emissions",IH+":get_flat_natural_emissions")])
p("E03","Later inputs and a longer horizon never change earlier results",
 "Changing any input in a year, or extending the run to a later last year, leaves the concentrations, forcings, temperatures and carbon fluxes of all earlier years unchanged (reference-year quantities, which the user chooses to define from another year, excepted).",
 ["inputs","configurations"],"every input series, every year changed, every later last year",
 "Tests never compare runs with different ends or later changes.",
 [CE,CM,CS],[("year loop",CS+":_run"),("precalculation of gases and response functions",CE+", "+CM)])
p("E04","Prescribed before the emission start, emission-driven from then on",
 "Before the emission start year (and always in concentration runs) every gas with concentrations has exactly its prescribed concentration of that year, except CO2 in emission runs, which is always computed from emissions; from the emission start year on concentrations are computed from emissions, starting from the last prescribed value. The switch happens in the stated year for all gases, also when it is the first or last year of the run or outside it.",
 ["configurations"],"every emission start from before to after the run, both run modes, every gas",
 "Tests use one emission start.",
 [CE],[("switch on year",CE+":emi2conc, _precalculate_concentrations_vanilla_gases, fill_one_row_conc")])
p("E05","A species' emissions affect only what physically depends on it",
 "Changing the emissions of one species changes only the concentrations and forcings that depend on it: its own; for NOx, CO and NMVOC also methane (through the lifetime rule) and ozone; for methane also ozone and stratospheric water vapour; for CO2, CH4 and N2O also each other's forcing through the documented overlap terms; for chlorine and bromine gases stratospheric ozone; for SO2 both sulphate forcings; and CO2 through temperature. All dependent quantities do change.",
 ["inputs","configurations"],"every species with emissions, every year, both carbon and thermal models",
 "Tests run complete scenarios and cannot separate species.",
 [CE],[("forcing and concentration routines by species",CE+":conc2forc, emi2conc")])
p("F01","Total forcing is the sum of the reported component forcings",
 "In every year the reported total forcing equals the sum of the reported forcings of all components, land use and perturbations included, solar and volcanic excepted. In a single-component run the total equals the forcing of that component alone; in a forcing run the total is the given forcing plus solar forcing.",
 ["inputs","configurations"],"all kinds of runs, every single component, all gas tables that leave out or add components, perturbations",
 "Tests compare totals of a scenario with stored output.",
 [CE,CS,PE],[("accumulation of the total",CE+":conc2forc"),("precalculated sum",CE+":_precalculate_erf_vanilla_gases")])
p("F02","Components act on the two hemispheres with their documented weights",
 "Aerosol, tropospheric ozone and land use forcing enter the northern and southern hemisphere with their fixed weights (whose mean is one), all other components equally; temperatures are those of the thermal model driven by these hemispheric sums plus solar forcing. In a single-component run only that component (with solar and volcanic forcing) drives the thermal model, for any component.",
 ["inputs","configurations"],"every component alone and all together, with perturbations on every component, both thermal models",
 "Hemispheric forcings are not in the results and tests only see their global effect.",
 [PE,CE],[("hemispheric weights",PE+":calculate_hemispheric_forcing")])
p("F03","Forcing of each component follows its documented formula",
 "The forcing of each component is that of its documented formula relative to the first year of the run: overlap formulas for CO2, CH4, N2O; concentration change times efficiency and adjustment for single-lifetime gases; emission change times the run's efficiency for each aerosol and for NMVOC, NH3, NOx; tropospheric ozone from methane and precursors against the reference year; stratospheric water vapour from methane. With unchanged inputs the forcing is zero.",
 ["inputs","histories","configurations"],"all sequences of concentration and emission levels over an alphabet up to a depth, values of each efficiency parameter, reference years",
 "Tests compare one scenario with stored output at loose tolerance.",
 [CE],[("forcing formulas",CE+":calculate_forc_three_main, tropospheric_ozone_forcing, calc_aerosol_forcing, conc2forc")])
p("F04","Stratospheric ozone counts every chlorine and bromine atom",
 "Stratospheric ozone forcing in a year follows the concentration changes three years earlier of all gases in the gas table that hold chlorine or bromine, each weighted with its number of atoms per molecule, and zero in the first three years. The result does not depend on the order of gases in the table, and gases without chlorine or bromine have no influence.",
 ["inputs","configurations"],"every gas name of the supplied gas tables, pairs of gases, concentration rises and falls, orders of the table",
 "Tests look at one table and one year.",
 [CE,PU],[("atom counts from names",PU+":make_cl_and_br_dictionaries, find_num_cl_in_hcfc"),("ozone sum",CE+":calculate_strat_quantities")])
p("F05","The pattern effect scales feedback with the aerosol share of forcing",
 "In each year the thermal model's feedback is its base feedback plus the aerosol sensitivity parameter times that year's aerosol share of absolute forcing (taken from the forcing input in forcing runs, zero when absent); with the parameter at zero the share has no effect at all. The feedback of a year depends on that year's share only.",
 ["inputs","histories","configurations"],"all sequences of shares over an alphabet up to a depth, values of the parameter, both thermal models, forcing and emission runs",
 "Tests check a single step or a sign.",
 [CE,UD,TL,CS,IH],[("effective feedback",UD+":set_feedback_gregory, "+TL+":set_feedback_gregory"),("share",CE+":conc2forc"),("optional column",IH+":read_forc")])
p("G01","Upwelling diffusion temperatures solve the documented ocean equations",
 "Air, sea and global temperatures, radiative imbalance and ocean heat content of the upwelling diffusion model are the solution of the documented two-hemisphere column equations for any forcing history, parameters, number of layers and time steps a year. Ocean heat content to 700 m counts the layers above that depth with the matching part of the layer cut by it.",
 ["inputs","histories","configurations"],"all forcing sequences (both hemispheres, volcanic) over an alphabet up to a depth; each parameter over several values, pairs of them; layer and step counts",
 "Tests compare one history with stored output.",
 [UD],[("matrix set up",UD+":coeff, setup_ebud, setup_ebud2"),("time step",UD+":energy_budget"),("heat content",UD+":ocean_temperature")])
p("G02","Two-layer temperatures solve the documented energy balance",
 "Surface, fast and deep temperatures, radiative imbalance and heat contents of the two-layer model are the solution of the documented two-layer energy balance, one step a year, for any forcing history and parameters, with solar, volcanic and hemispheric forcing entering as their means once. Heat content of the mixed and deep layer add up to the total.",
 ["inputs","histories","configurations"],"all forcing sequences over an alphabet up to a depth, each parameter over several values, pairs of them",
 "Tests check signs and one step.",
 [TL],[("time step",TL+":energy_budget")])
p("G03","Zero forcing gives no change, and the response is linear and symmetric",
 "With zero forcing all temperatures, imbalances and heat contents stay exactly zero; a forcing history of opposite sign or scaled size gives opposite or scaled results (when the upwelling does not depend on temperature), and sums of histories give sums of results. With equal ocean shares in both hemispheres, swapping the forcing of the hemispheres swaps the hemispheric results and leaves the global ones.",
 ["inputs","histories","configurations"],"all forcing sequences over an alphabet up to a depth, pairs of them, both thermal models",
 "Tests have no such relations.",
 [UD,TL],[("linear solver",UD+":_band"),("balance",UD+":energy_budget")])
p("M01","Prescribing the concentrations of an emission run gives the run again",
 "When the concentrations that an emission driven run reports are given as prescribed concentrations, a concentration run with the same other inputs reports the same concentrations, forcings, temperatures, imbalances and heat contents, and so does an emission run whose emission start is moved to any later year: whether a concentration was computed or prescribed makes no difference to anything computed from it. In such a concentration run the emissions of gases with prescribed concentrations have no influence.",
 ["inputs","histories","configurations"],"all runs, all years as switch from prescribed to computed, every gas varied, every carbon and thermal model, lifetime mode and form of input",
 "Tests compare single runs of each kind to stored values; none relates the two.",
 [CE,CS],[("prescribed or computed",CE+":emi2conc, conc_from_emissions, fill_one_row_conc"),("forcing from either",CE+":conc2forc")],["results of both runs"])
p("N01","Solar, volcanic and land use forcing act in their year, place and season",
 "Solar forcing acts equally on both hemispheres, northern and southern volcanic forcing only on their own hemisphere, with the columns of a year's row being consecutive equal periods of the year, and land use forcing as its own component; each with the value of that calendar year, and reported as given (volcanic as annual mean). With the switch for solar and volcanic forcing off, data files for them are ignored.",
 ["inputs","configurations"],"every year, hemisphere and column alone, all column counts against step counts, all kinds of runs, both thermal models",
 "Tests use annual or monthly files with twelve steps only.",
 [CS,IH,UD,TL],[("defaults and readers",IH+":set_sun_volc_luc_defaults"),("columns to steps",UD+":energy_budget")])
p("H01","The default carbon cycle solves its documented response equations",
 "CO2 from the default carbon cycle follows the documented ocean and biosphere response function equations for any emission and temperature history, number of steps a year and parameters, including net primary production, mixed layer depth and solubility as functions of temperature. The reported biosphere and ocean fluxes, depths and solubilities are those of the same calculation.",
 ["inputs","histories","configurations"],"all emission sequences over an alphabet up to a depth, temperature sequences, step counts, each parameter over several values",
 "Tests compare a scenario with stored output and a few signs.",
 [CM,RF],[("CO2 update",CM+":co2em2conc"),("feedbacks",CM+":fnpp_from_temp, solubility_temp_feedback, mixed_layer_temp_feedback"),("outputs",CM+":get_carbon_cycle_output")])
p("H02","The box carbon cycle conserves carbon",
 "In the box carbon cycle, each year the emissions equal the change of the atmosphere plus what vegetation and soil and both ocean boxes took up; the CO2 series follows the documented exchange rates and temperature dependence for any emission and temperature history and parameters. Reported production and ocean flux are those of the same calculation.",
 ["inputs","histories","configurations"],"all emission sequences over an alphabet up to a depth, temperature sequences, each parameter over several values",
 "Tests check a handful of steps.",
 [CB],[("box update",CB+":co2em2conc")])
p("H03","Back-calculated CO2 emissions reproduce the concentrations",
 "Emissions calculated back from a CO2 concentration series (and temperature series) reproduce that series when run forward from preindustrial state, within the solver's tolerance, for rising, falling and constant series, and the emissions reported for concentration runs are these. Later runs are not affected by a back calculation.",
 ["inputs","histories","configurations"],"all concentration sequences over an alphabet up to a depth, with and without temperature, different parameters and step counts",
 "Tests use one series of ten years.",
 [CA,CM],[("bisection",CA+":_guess_emissions_iteration"),("loop over years",CA+":back_calculate_emissions")],["emissions, forward run, and runs made before and after"])
p("H04","Response functions given in either form mean the same, bad ones are refused",
 "Ocean and biosphere response functions given in a run's parameters as flat numbered parameters or as dictionaries of coefficients and time scales, or as such dictionaries in the configuration, give the same results, whatever the number of terms, order of keys or scale of the coefficients (they are normalised). Sets with mismatching lengths or negative values are refused with an error instead of being used in part, and a refused set leaves later runs as if it had not been given.",
 ["inputs","configurations"],"all numbers of terms up to a bound, all key orders, all length mismatches, both forms and places",
 "Tests use one set each.",
 [RF,PU,CM],[("flat parameters",RF+":_process_flat_carbon_parameters"),("consistency",PU+":_check_array_consistency")])
p("I01","Files hold the same results as memory, and output options change nothing",
 "Result files hold for every year of the run the same emissions, concentrations, forcings, carbon cycle quantities, temperatures, imbalances, heat contents and solar and volcanic forcing as the in-memory results of the same run, to the printed precision, under the given folder and prefix. Which outputs are asked for (files, dictionary, carbon outputs, plots) never changes the numbers.",
 ["configurations"],"all combinations of output options and kinds of runs",
 "Tests check existence of files or compare one set to stored output.",
 [CS,CE,S+"make_plots.py"],[("writers",CS+":write_data_to_file, "+CE+":write_output_to_files"),("dictionary",CE+":add_results_to_dict")],["files and .results"])
p("I02","Common-name variables map to the right results, sums and units",
 "Each variable asked by its common name returns the series of exactly the quantity it names, for every gas and aggregate: aggregates are the sum over all their members present in the results, units match the numbers, and years cover the run. Names the results do not hold return nothing or are refused, never another quantity.",
 ["inputs","configurations"],"every variable name of the supported list and every gas of the supplied tables, every run kind, subsets of gases",
 "Tests read a few variables.",
 [FR,S+"formattingtools/reformat_inputdata_to_cscm_format.py"],[("name translation",FR+":fgas_transform, montreal_transform, forc tables"),("unit conversion",FR+":get_data_from_ohc")],["CSCMREADER results"])
p("J01","Omitted parameters mean the documented defaults, foreign ones nothing",
 "Leaving out a parameter gives the same results as giving its default value explicitly; giving all but one changes nothing else; a parameter that no component reads or a non-numeric value for a numeric parameter is ignored in favour of the default. Integers, floats and numpy numbers (double precision) of equal value are equivalent.",
 ["inputs","configurations"],"every parameter of every component, every subset of size one and all-but-one, foreign names, wrong types, number types",
 "Tests check the helper on a few names.",
 [UT,CE,CM,CB,UD,TL],[("defaults filled in",UT+":cut_and_check_pamset, check_numeric_pamset"),("update rule",UT+":update_pam_if_numeric")])
p("K01","Regional aerosols replace the global ones without double counting",
 "Adding regional aerosol species to the gas table gives each region its own forcing from its own emissions and efficiency, adds them all to the total, and switches off the direct forcing of the global aerosol of the same kind while its indirect effect and the other aerosols stay. A regional table made from a global one holds one row for each aerosol and region with the given efficiencies and keeps all other rows.",
 ["inputs","configurations"],"all subsets of aerosols split in regions, numbers of regions, efficiency tables, emission sequences",
 "Tests use one table and region list.",
 [CE,PU],[("no double counting",CE+":avoid_regional_double_counting"),("table maker",PU+":make_regional_aerosol_gaspamdata")])
p("L01","Order of species and unlisted species never matter",
 "Results do not depend on the order in which species stand in the gas table and in the emission and concentration tables, given as files or data, in single runs and ensembles. Columns for species that the gas table does not list have no influence on concentrations, forcings, temperatures and carbon fluxes. Taking species out of the gas table, or adding them, leaves the concentrations and forcings of all other species the same, except what physically depends on them (stratospheric ozone on chlorine and bromine gases, CO2 and with it the overlap terms through temperature, totals).",
 ["inputs","configurations"],"every rotation, exchange and move of rows and columns, every subset of removable species, unlisted columns in every position, each run kind and form of input",
 "Tests always use the supplied tables in the supplied order and with all species.",
 [CE,IH,FR,PW],[("species looked up by name",CE+":emi2conc, conc2forc"),("tables indexed by name",IH+":read_components, read_inputfile")])
p("T01","Moving every input and the run in time only moves the results",
 "Only the position of a year among the inputs counts, not its number: when the years of the run, the emission start, the reference year and all inputs (emissions, concentrations, natural emissions, solar, volcanic and land use forcing, perturbations) are moved by the same number of years, all results come out the same for the moved years, in every kind of run, whether inputs are sent as files or data. The documented exception is the methane lifetime rule that refers to the year 2000.",
 ["inputs","configurations"],"all shifts in time, all windows, run kinds and forms of input",
 "Tests run a few fixed windows of the supplied scenarios.",
 [CE,IH,CM,RF,CS],[("years counted from the start of the run",CS+":_run, add_year_data_to_output"),("rows picked by year",CE+":_precalculate_concentrations_vanilla_gases, emi2conc, conc2forc"),("files cut to the run",IH+":read_inputfile, read_data_on_year_row")])
p("W01","Nothing but the inputs counts, and a run leaves the process as it was",
 "What a run gives depends on its configuration, parameters and data alone: not on the working directory and what lies in it (relative output folders and the fallback for a natural emissions file that does not exist aside), the state of random number generators, print, display, error, warning and log settings, environment variables, arguments, hash seed, interpreter options, the order modules are imported in, or the thread it runs in. And a run, refused or not, an ensemble, a reader or a drawn distribution changes none of these for the program that uses the package and leaves no file outside the output folder; only drawing from a normal distribution advances numpy's random numbers.",
 ["configurations","schedules","histories"],"all single settings and pairs of settings, hash seeds, import orders, each operation of the public interface",
 "Tests run in one process with one set of settings, and never look at the process afterwards.",
 [S+"ciceroscm.py",CE,IH,PW,S+"parallel/_configdistro.py"],[("files and folders",IH+":read_components and the default files; "+CS+":_run, write_data_to_file"),("sets and dictionaries of gases",CE),("logging and errors","all modules")])
p("P01","Plots show every result once, with its own years and values",
 "With plotting on, the figures in the plots folder of the output folder show each component of the emissions, concentrations and forcings in exactly one panel titled with it, and heat contents, imbalances and temperatures under their own names, each with the years of the run and the values of that result, whatever the number of components, thermal and carbon model, kind and length of the run, and whatever was plotted before. Components that are left out by design (precursors and biomass burning aerosols in the forcing figures, components without unit) stay out. Asking for plots never makes a run fail.",
 ["configurations","histories"],"every number of components across all figure and row boundaries, each run kind, each gas missing, sequences of runs with plots",
 "The test makes the plots for one gas table and checks only that the files exist.",
 [S+"make_plots.py",CS,CE],[("panels",S+"make_plots.py:plot_output2"),("temperature, imbalance and heat content",S+"make_plots.py:plot_output1")],["lines in the figures when they are saved"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
