import json
B="src/openscm_twolayermodel/base.py"; T="src/openscm_twolayermodel/two_layer_model.py"; I="src/openscm_twolayermodel/impulse_response_model.py"; U="src/openscm_twolayermodel/utils.py"; K="src/openscm_twolayermodel/constants.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["results of run()/step() on a model driven with set_drivers", "ScmRun returned by run_scenarios"]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Two-layer model integrates its published equations exactly, step by step",
 "For every choice of parameters, timestep and forcing, each step of the two-layer model moves both layer temperatures by exactly one forward-difference step of dTu/dt = (F - (lambda0 - a*Tu)*Tu - efficacy*eta*(Tu - Tl))/C_upper and dTl/dt = eta*(Tu - Tl)/C_lower, evaluated with the previous step's temperatures and forcing. Both temperatures start at zero, there is one value per forcing value, and the heat capacities are depth x 1000 kg/m^3 x 4181 J/K/kg.",
 ["inputs"],"all parameter values (including a of either sign, efficacy below/near/above one, eta = 0, very deep lower layers), all timesteps, all forcing series of any length, sign, magnitude and numeric type",
 "Tests evaluate the step formula at one parameter set and run one scenario; the equation must hold at every step of every run.",
 [T,B,K],[("_calculate_next_temp_upper / _calculate_next_temp_lower",T),("_step state machine",T),("heat capacities from depth setters",T)],
 state=[("_temp_upper_mag, _temp_lower_mag","layer temperatures",T),("_timestep_idx","position in the run",T)])

p("C02","Impulse response boxes follow the exact exponential solution at every step",
 "For every choice of parameters, timestep and forcing, each box temperature of the impulse response model moves in one step from T to T*exp(-dt/d) + q*F*(1 - exp(-dt/d)), with F the previous step's forcing; both boxes start at zero and there is one value per forcing value. The reported surface temperature is the sum of the two boxes.",
 ["inputs"],"all q1, q2 (either sign or zero while efficacy is one, positive otherwise), all d1 < d2 (and d1 >= d2, which assignments can reach), timesteps from far below to far above the response times, all forcing series of any length, sign, magnitude and numeric type",
 "Tests evaluate one step at one parameter set; the recursion must hold over every step of every run.",
 [I,B],[("_calculate_next_temp",I),("_step state machine",I),("sum of boxes in _get_run_output_tss",I)],
 state=[("_temp1_mag, _temp2_mag","box temperatures",I)])

p("C03","Reported heat uptake closes the planetary energy budget",
 "In both models, for every run, the heat uptake reported for a step equals the forcing minus the radiative response (lambda0 - a*T)*T minus the efficacy term (efficacy - 1)*eta*(T - T_deep), all at the previous step; it is zero at the first step and is in W/m^2 whatever units the parameters were given in. In the two-layer model it equals the change of heat stored in the two layers per unit time, and for the impulse response model lambda0, eta and T_deep are those of the equivalent two-layer model (T_deep from the mode ratios 1/(1 - kappa/d_i), kappa = C_lower/eta).",
 ["inputs","configurations"],"all parameters (efficacy below, near, equal to and above one), parameter units, timesteps and forcings",
 "Tests compare the code with a copy of its own formula at one point with default units; they never check the budget over a run, nor other units.",
 [T,I,B],[("_calculate_next_rndt (both models)",I),("_calculate_geoffroy_helper_parameters",B),("get_two_layer_parameters",I)],
 state=[("_rndt_mag","heat uptake",T)])

p("C04","Outputs are causal: forcing at step i first shows at step i+1",
 "In both models, no output at step i depends on the forcing at step i or later: changing, truncating or extending the forcing from step i on (even to infinite values) leaves all outputs up to and including step i unchanged, so the first outputs are always zero and the last forcing value never matters. Conversely, a forcing change at step i does change the temperature at step i+1.",
 ["inputs","histories"],"all forcing series and all positions of change, truncation and extension, for direct runs and run_scenarios",
 "Tests check the first value and one fixed case; causality quantifies over every position in every series.",
 [T,I,B],[("use of index timestep_idx - 1 for every input of a step",T),("same",I)])

p("C05","State-independent response is linear and time-invariant in the forcing",
 "With a = 0 in the two-layer model, and always in the impulse response model, the response (all temperatures and the heat uptake) to k1*F1 + k2*F2 equals k1 times the response to F1 plus k2 times the response to F2, and delaying the forcing by n zero-forcing steps delays the response by n steps.",
 ["inputs"],"all parameters, forcing pairs, weights of either sign and any magnitude, delays",
 "It is a relation between whole runs, which no test compares.",
 [T,I],[("step formulas linear in state and forcing",T),("same",I)])

p("C06","Long runs settle at the physically correct equilibrium, and limits are right",
 "With zero forcing all outputs stay exactly zero; under constant forcing F and a stable timestep a run settles with heat uptake zero and with temperatures F/lambda0 in both layers of the two-layer model (the stable root of F = (lambda0 - a*T)*T when a is non-zero), and q_i*F in the boxes of the impulse response model. With eta = 0 the two-layer model reduces to a one-layer model whose lower layer stays exactly at zero, and with an enormous lower layer that layer stays arbitrarily cold and the upper layer settles at F/(lambda0 + efficacy*eta).",
 ["inputs","histories"],"all parameters admitting an equilibrium, forcings of either sign, runs long enough to settle",
 "Tests run at most a few steps or one scenario and never look at where long runs end up.",
 [T,I],[("balance of terms in the step formulas",T),("same",I)])

p("C07","Results do not depend on the units parameters and drivers are given in",
 "Giving any parameter, the timestep or the forcing in any equivalent unit (m/km/cm, yr/month/day/s, W/kW/mW, K/delta_degC/mK, percent-like ratios such as m/km) leaves temperatures (in delta_degC), heat uptake (in W/m^2), converted parameters and the refusals unchanged up to floating-point rounding. This holds for both models, through direct runs, run_scenarios and the parameter conversions.",
 ["inputs","configurations"],"every parameter in every unit of its dimension, alone and in combination",
 "Tests use one alternative unit for a setter; invariance of results over all unit combinations is not tested.",
 [B,T,I],[("magnitude caching setters (val.to(unit).magnitude)",B),("unit conversions in _calculate_next_rndt",I)])

p("C08","Values of the wrong type or dimension are refused and change nothing",
 "Every parameter, the timestep and the forcing accept only pint quantities: anything else raises TypeError and a quantity of another dimension raises UnitError (a ValueError), in construction, in assignment and (for arrays) in set_drivers, naming the offending parameter. A refused value leaves the model exactly as it was: all parameter readings and all later results are unchanged.",
 ["inputs","histories"],"every parameter x every kind of non-quantity and wrong dimension, at every point in a model's life",
 "Tests try one wrong unit and one plain number per parameter and never check that the model is unharmed afterwards.",
 [B,T,I],[("_assert_is_pint_quantity_with_units before any assignment",B)])

p("C09","Parameters read back what was last written and take effect in the next run",
 "After any history of construction, assignments, refused assignments and runs, every parameter reads back the last accepted value as given (magnitude and unit), the heat capacities equal depth x density x specific heat of the current depths, and the next fresh run is bit-identical to that of a newly constructed model with the current values. Setting one parameter never changes another.",
 ["histories"],"all sequences of assignments, runs and conversions over all parameters of both models",
 "Tests set each parameter once on a fresh model; stale derived values need a history to show.",
 [T,I,B],[("property setters keep value, magnitude and derived values in step",T),("same",I)],
 state=[("_<para> / _<para>_mag","value as given / magnitude in model units",T)])

p("C10","A run depends only on current parameters and drivers, not on the model's past",
 "Whatever a model went through before (complete or partial runs, steps, resets, errors, parameter changes), set_drivers followed by reset and run gives bit-identical results to a fresh model with the same parameters and drivers, and so does stepping once per driver value instead of calling run. Before the first step after a reset no output value is available (all NaN), after k steps exactly the first k values are, and a reset keeps drivers and parameters.",
 ["histories"],"all sequences of set_drivers, reset, step, run and parameter changes",
 "Tests perform a single set_drivers-reset-run sequence; residue of earlier history needs sequences.",
 [T,I,B],[("_reset reallocates outputs and index",T),("_run loops over _step",I)],
 state=[("_timestep_idx","position in the run",T)])

p("C11","Running is refused until valid one-dimensional, complete drivers are set",
 "reset raises ModelStateError whenever no drivers were set or the current drivers contain a NaN at any position, and succeeds for any one-dimensional NaN-free drivers. set_drivers raises AssertionError for drivers that are not one-dimensional, and TypeError/UnitError for wrong types or units, and leaves the previously set drivers and their results in place.",
 ["inputs","histories"],"all NaN patterns, array shapes and histories of failed and successful driver settings",
 "Tests try one unset model and one two-dimensional array.",
 [B,T,I],[("isnan check in _reset",T),("shape check in set_drivers",B)])

p("C12","Model instances are independent of one another",
 "Any number of model instances of either class can be created, configured, driven, stepped and run in any interleaving, including concurrently in threads, and each behaves exactly as if it were the only one. In particular default parameter values are the same for every new instance, and objects handed out or taken in by one instance never let another one change.",
 ["schedules","histories"],"all interleavings of the operations of several instances, and all thread interleavings of their runs up to a preemption bound",
 "Tests use one instance at a time in one thread.",
 [B,T,I],[("all run state lives on the instance; no class-level or module-level mutable state",B)])

p("C13","An interrupted or failed run never spoils later use",
 "If an exception or interrupt strikes at any point inside a run, a step, a reset or run_scenarios (including a scenario that is refused part-way through a set), the model's parameters are unchanged, the caller's data is unchanged, and repeating the operation from set_drivers (or calling run_scenarios again) gives exactly the result an untouched model gives. The exception reaches the caller, rather than a partial result being returned as if it were complete.",
 ["fault_sequences","crash_points"],"every executed line of the package as point of failure, every position of a bad scenario in a set",
 "No test injects failures.",
 [B,T,I],[("run state is rebuilt by set_drivers + reset; outputs only assembled at the end",B)])

p("C14","Runs never modify their inputs and are deterministic",
 "run_scenarios leaves the caller's scenarios (ScmRun, DataFrame or file) unchanged - data, metadata, units, time axis - and returns data that shares no memory with them; set_drivers and runs leave the forcing array and parameter objects unchanged. The same inputs always give bit-identical output, whether or not the progress bar is shown and whichever supported container the same scenarios come in.",
 ["inputs","histories"],"all scenario containers, options and repetitions",
 "Tests look only at the output of single calls.",
 [B],[("_ensure_scenarios_are_scmrun copies",B),("filter creates new data",B)])

p("C15","Exactly the requested World driver series are run and nothing else matters",
 "run_scenarios runs exactly the timeseries whose variable matches driver_var and whose region is World, each once; other variables and regions, whatever their values, units, metadata and time axes, change nothing in the result. If no such timeseries exists it raises ValueError naming driver_var.",
 ["inputs","configurations"],"all subsets of a pool of driver and non-driver timeseries, all driver_var choices",
 "Tests have one scenario set with a single extra variable.",
 [B],[("filter(variable=driver_var, region='World')",B),("dropna of columns without driver data",B)])

p("C16","The timestep matches the scenarios' time axis or the run is refused",
 "run_scenarios uses a one year timestep for time axes with one point per calendar year spaced a year apart, one month for axes with points spaced 28 to 31 days apart, for any start date, length and order of points, and overrides whatever timestep the model had. Any other or irregular axis (gaps, mixed, daily, seasonal, decadal) raises NotImplementedError instead of being run with a wrong timestep.",
 ["inputs","configurations"],"all time axes: start dates (leap years, before 1678, after 2262), spacings, lengths, positions of irregularity",
 "Tests try one monthly, one yearly and one or two irregular axes.",
 [B],[("_select_timestep",B)])

p("C17","Missing data is trimmed at the ends and refused inside a timeseries",
 "A driver timeseries with missing values at its start and/or end is run over exactly the period it has data for, starting from zero at its first value, and the output has values exactly there and is missing elsewhere; the result is the same as running that scenario alone on its own period. A driver timeseries with a value missing between two values is refused with NotImplementedError, never run as if its values were contiguous.",
 ["inputs"],"all missing-data masks over a set of scenarios",
 "Tests contain a single set with trailing missing data.",
 [B],[("row.dropna() and gap check in run_scenarios",B)])

p("C18","Scenarios in one call do not influence each other",
 "The outputs of run_scenarios for a scenario are the same whether it is run alone or among any other scenarios, in any order and number, and equal those of a direct run of a fresh model with the same parameters, timestep and forcing. Scenarios differing only in one metadata column (other than climate_model, which the run replaces) stay separate, and each may have its own units and length.",
 ["inputs","histories"],"all ordered subsets of a scenario pool, sets of tens of scenarios",
 "Tests run one set in one order.",
 [B],[("set_drivers/reset/run per row and assembly by label",B)])

p("C19","Output has complete, correctly labelled series for every scenario",
 "For every driver series the output has exactly that series with its values and unit unchanged, plus one series per model variable (two-layer: 'Surface Temperature|Upper', 'Surface Temperature|Lower', 'Heat Uptake'; impulse response: 'Surface Temperature|Box 1', 'Surface Temperature|Box 2', 'Surface Temperature', 'Heat Uptake'), in delta_degC and W/m^2, on the same time points. Every series keeps all metadata of its driver and additionally has climate_model ('two_layer' or 'two_timescale_impulse_response'), a run_idx identifying its scenario, and one column 'name (unit)' holding the value as given of each of the model's physical parameters.",
 ["inputs","configurations"],"all scenario sets, metadata (numeric, missing, extra columns), units and model configurations",
 "Tests look at one set with fixed metadata.",
 [B,T,I],[("_create_ts / _get_run_output_tss",T),("save_paras metadata and run_idx",B)])

p("C20","A model can be reused across run_scenarios calls in any order",
 "After any history of run_scenarios calls (including refused ones), direct runs and parameter changes, run_scenarios gives bit-identical results to a new model with the same parameters, and leaves every physical parameter unchanged; outputs of earlier calls are never altered by later use. Parameters recorded in the output are those in force when the call was made.",
 ["histories"],"all sequences of run_scenarios on yearly, monthly, invalid and partial sets, direct runs and parameter changes",
 "Tests call run_scenarios once per model.",
 [B,T,I],[("delta_t and drivers reassigned per call; reset per scenario",B)])

p("C21","Conversion between the two models' parameters is mutually inverse",
 "For every two-layer parameter set with a = 0 (eta and efficacy positive), the equivalent impulse response parameters satisfy d1 < d2, q1 + q2 = 1/lambda0 and reproduce the same efficacy, and converting back gives the original depths, lambda0, eta and efficacy (up to floating-point rounding, which grows with the spread of the timescales); the converse holds for impulse response parameters. The converted parameters are accepted by the other model's constructor in any units given, conversion leaves the model unchanged, and any non-zero a raises ValueError.",
 ["inputs","histories"],"all physically meaningful parameter sets of either model in any units, and conversions repeated to any depth",
 "Tests check round trips at a few points and the formula against itself.",
 [T,I,B],[("get_impulse_response_parameters",T),("get_two_layer_parameters",I),("_calculate_geoffroy_helper_parameters",B)])

p("C22","The two models are dynamically equivalent",
 "A two-layer model with a = 0 and the impulse response model with its equivalent parameters produce surface temperature and heat uptake that converge to each other at first order as the timestep shrinks, and the impulse response for a piecewise constant forcing is the same whatever timestep divides the pieces. Evaluated at the grid points the equivalent impulse response trajectory is the exact solution of the two-layer equations.",
 ["inputs","histories"],"all parameter sets with a = 0 (either direction of conversion, efficacy not one), forcings and step refinements",
 "One test compares one run loosely at one timestep.",
 [T,I,B],[("parameter conversion formulas",B),("step formulas of both models",I)])

p("C23","The impulse response model refuses a short timescale not shorter than d2",
 "Constructing an impulse response model with d1 >= d2 raises ValueError and with d1 < d2 succeeds, comparing physical durations rather than numbers: in any combination of units, for values arbitrarily close to each other, and with either one left at its default.",
 ["inputs","configurations"],"all pairs of durations in all units",
 "A test tries a single pair in one unit.",
 [I],[("d1 >= d2 check in __init__",I)])

p("C24","Feedback to climate sensitivity conversion is exact, unit-aware and self-inverse",
 "convert_lambda_to_ecs(lambda, f2x) returns minus f2x divided by lambda as a temperature, for scalars and arrays, any sign and any units, with 3.74 W/m^2 as default f2x, and leaves its arguments unchanged. Applied to its own result it returns the original lambda, and anything that is not a pint quantity raises TypeError.",
 ["inputs"],"all lambda and f2x values, shapes and units, and all non-quantities",
 "Tests try a couple of values.",
 [U],[("convert_lambda_to_ecs",U)],observe=["return value of convert_lambda_to_ecs"])

p("C25","Shipped reference results are reproduced by every way of running them",
 "The reference outputs shipped with the repository (two-layer default, with efficacy and with state dependence; impulse response default) are reproduced by the current code to rounding error for every scenario, year and variable, and equally when each scenario is run alone, in any order, on a reused model, through direct stepping, or with parameters in other units.",
 ["histories","configurations"],"every scenario of every reference set x every way of running it",
 "The stable tests check the full sets once in one way.",
 [B,T,I],[("whole package",T)])

p("C26","Deep copies and pickles of a model continue like the original, independently",
 "At any point of its life (new, configured, driven, part-way through a run, finished, after errors), a model can be deep-copied or pickled (and loaded with the openscm unit registry as pint's application registry). Original and copy then both show the same parameters, drivers and results and behave exactly like a model that was never copied, whatever is done to the other one in whatever order.",
 ["histories","schedules"],"all histories before the copy, all continuations of original and copy and their orders",
 "No test copies a model; the guarantee quantifies over the point of the copy and both continuations.",
 [B,T,I],[("all state held in instance attributes",T),("same",I)],
 state=[("instance attributes","parameters, plain-number shadows, drivers, results, position",T)])

p("C27","A run ends with its drivers: further steps are refused and change no result",
 "Once a run has produced one value per driver value, every further step() or run() raises IndexError and leaves all results as they are, however often it is tried and whatever parameters are assigned in between; run() called part-way through never goes beyond the last driver value. Afterwards reset (or new drivers, reset) and run give exactly what a new model gives.",
 ["histories","inputs"],"all driver lengths, all words of further steps, runs and assignments, all ways back into a run",
 "Tests never step past the end.",
 [B,T,I],[("_step index handling",T),("same",I),("_run loop",T)],
 state=[("_timestep_idx","position in the run",T)])

p("C28","Looking at a model changes nothing",
 "Reading parameters, drivers, heat capacities or converted parameters, comparing, printing, copying or inspecting a model, any number of times, in any order and at any point of its life (also between steps and after refused operations), changes no later result and no other reading; calculated values handed out (heat capacities, converted parameters and the dict holding them) belong to the caller, who may change them without effect on the model.",
 ["histories"],"all reads and sequences of reads at all points of all programs",
 "Tests read once and compare; whether reads between steps have effects is never tested.",
 [B,T,I],[("property getters",T),("heat_capacity_upper / heat_capacity_lower",T),("get_impulse_response_parameters",T),("get_two_layer_parameters",I)])

p("C29","More forcing never means less warming, and warming stays within equilibrium",
 "For timesteps at which the scheme is stable without oscillation and positive feedback parameters, raising the forcing at any steps never lowers any temperature at any later step (in the two-layer model with a = 0, or a > 0 and non-negative forcing; in the impulse response model always). With non-negative forcing temperatures stay between zero and the equilibrium of the largest forcing (a = 0), under constant or rising forcing they never fall, the lower layer never overtakes the upper one and heat uptake is never negative nor (efficacy at least one, a = 0) above the forcing.",
 ["inputs"],"all pairs of pointwise ordered forcing series, all parameter sets with non-oscillating timesteps",
 "No test compares responses to ordered forcings or bounds a response.",
 [T,I,B],[("_calculate_next_temp_upper / _calculate_next_temp_lower",T),("_calculate_next_temp",I),("_calculate_next_rndt",I)])

p("C30","Results follow the scaling laws of the equations at every magnitude",
 "Multiplying all times (heat capacities or timescales, and the timestep) by a factor changes no result; multiplying forcing, feedback, exchange and heat capacities (dividing q1, q2) by a factor leaves temperatures and multiplies the heat uptake; multiplying the forcing and dividing a by a factor multiplies all results by it. The same holds for the converted parameters, through run_scenarios, and for laws combined - there is no hidden absolute threshold, unit or constant other than water's heat capacity.",
 ["inputs","configurations"],"all parameter sets, forcing series and factors",
 "No test relates runs at different magnitudes.",
 [T,I,B,K],[("step formulas",T),("step formulas",I),("conversion formulas",B)])

p("C31","Results do not depend on the process they are calculated in",
 "The same inputs give bit-identical results, labels, readings and refusals in every process: whatever the hash seed, optimisation level, time zone, working directory, import order of the package's modules, thread, garbage collection, content of fresh memory, and whatever other models were used before in the same process and in which order.",
 ["configurations","schedules"],"all process environments and orders of work",
 "Tests run in one process, in one order and environment.",
 [B,T,I,U],[("module level state and defaults",T),("run_scenarios",B)],observe=["everything printed by a process of its own that uses only the public API and the result arrays"])

p("C32","Scenarios refused by run_scenarios leave the model exactly as it was",
 "When run_scenarios refuses its input before running anything - no World data for driver_var, values missing inside a timeseries, an irregular or unsupported time axis, timeseries with different timesteps, or no scenarios at all - the model is exactly as before the call: timestep and all parameters (value and unit), drivers, results and the point reached in a run are unchanged, a run in progress can be continued, and any later run or run_scenarios call gives what it would have given without the refused call, however many are refused in a row.",
 ["histories","inputs"],"all kinds of refused scenarios, alone and in sequence, at all points of a model's life",
 "Tests check that the exception is raised, not what is left behind, and only on new models.",
 [B,T,I],[("run_scenarios",B),("_select_timestep_all",B),("_select_timestep",B)])

p("C33","Parameters assigned during a run take effect from the next step",
 "Parameters and the timestep may be assigned at any point of a run made step by step, any number of times and in any units. Every step then is the step of the model's equations (temperatures and heat uptake) with the parameters in force when it is made, starting from the temperatures reached; values calculated before are not touched, refused assignments make no difference, the parameters read back as assigned last, and after a reset the model runs like a new one with these parameters.",
 ["histories","inputs"],"all orders of steps and assignments",
 "Tests set parameters once, before a run.",
 [T,I,B],[("step",T),("step",I),("parameter setters",T),("parameter setters",I),("delta_t",B)])

p("C34","Drivers read back as given, and a run uses those accepted last",
 "The drivers of a model read back exactly as they were given (every value, number type and unit), whatever the unit, from the moment they are set until others are accepted, also after resets, steps, runs, parameter changes and refused drivers. A reset followed by a run uses exactly the drivers accepted last, however often and in whatever way (set_drivers or the erf property) others were set or refused before, and regardless of earlier run_scenarios calls.",
 ["histories","inputs"],"all orders of setting, refusing and using drivers, all units",
 "Tests set drivers once per model.",
 [B,T,I],[("set_drivers",B),("erf",B),("_reset",T),("_reset",I)])

p("C35","Results do not depend on the number types values are given in",
 "Parameters, timestep and forcing may be given as Python or numpy integers (signed or unsigned, 32 bits and wider), as floating-point numbers of single precision and better, or as arrays without dimensions; forcing in any such type, byte order and memory layout, and scenarios in tables of any such type. Whenever the type holds a value exactly, runs, scenario runs (including the recorded parameters), converted parameters and climate sensitivities are those of the same values in double precision, to the precision of the type: products of integers never overflow, unsigned integers are never wrapped around by a change of sign, and nothing is truncated. Parameters read back in the type they were given in.",
 ["inputs","configurations"],"all number types for every parameter alone, in pairs and all together, in several units; all types and layouts of the forcing",
 "Tests use Python floats and double precision arrays.",
 [B,T,I,U],[("parameter setters keep the magnitude's type",T),("get_two_layer_parameters",I),("_calculate_next_temp",I),("convert_lambda_to_ecs",U),("result arrays made like the drivers",T)])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
