#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the list stays readable and in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
C = "core/src/"
prop("W01", "The basin water balance closes over every run",
 "Over any simulated period, and for any model structure, solver, forcing and parameter values, the precipitation that reaches the land (after the configured correction factors) plus the melt of unlimited ice equals the discharge at the outlet plus the evapotranspiration and sublimation plus the change of water, snow and ice stored in the basin (models with a groundwater exchange add the exchanged amount). "
 "The reported totals (outlet discharge, evapotranspiration, water, snow and glacier storage changes) are area-weighted basin averages that satisfy this balance and agree with the actual contents of the stores; the total of any recorded item is the (area-weighted) sum of its recorded series.",
 ["inputs", "configurations", "histories"], "all structures (GSM-Socont, GR4J, GR6J, HBV, free storage networks, with or without snow, glaciers, canopies, lateral snow transport, structure variants), all solvers, all admissible parameters and forcing, any number and area of hydro units, with or without spin-up",
 "The tests close the balance for a few hand-made set-ups of some days; the balance is a statement about every structure, unit geometry and history.",
 [C+"base/Processor.cpp", C+"base/Logger.cpp", C+"containers/WaterContainer.cpp", C+"base/ModelBuilder.cpp", C+"spatial/SubBasin.cpp"],
 [("every flux is withdrawn from one store and deposited in one target with its area weight", C+"base/Processor.cpp, "+C+"base/ModelBuilder.cpp"), ("totals from the recorded series", C+"base/Logger.cpp")],
 observe=["reported totals after a run", "store contents before and after a run"])
prop("W02", "Each store's budget closes at every step and fluxes reach their target",
 "At every time step and for every store of every hydro unit and of the basin, the content at the end of the step equals the content at its start plus everything delivered to it during the step minus everything it released. "
 "What a store releases arrives, within the same step, in full and only at the target declared for that flux, scaled by the share of the unit covered by the source and, towards the basin level, by the unit's share of the basin area; the discharge is exactly the sum of what is declared to go to the outlet.",
 ["inputs", "configurations", "histories"], "all stores, steps, structures, solvers, cover fractions and unit areas",
 "The tests look at a few stores of fixed examples; misrouted, duplicated or mis-weighted water only shows for particular combinations of structure, solver and geometry.",
 [C+"base/Processor.cpp", C+"base/Solver*.cpp", C+"base/ModelBuilder.cpp", C+"containers/", C+"fluxes/", C+"bricks/"],
 [("content changes booked with the fluxes that cause them", C+"processes/Process.cpp, "+C+"containers/WaterContainer.cpp"), ("flux weights", C+"fluxes/Flux.cpp, "+C+"spatial/HydroUnit.cpp")],
 state=[("contents", "water, snow and ice contents of each store", C+"containers/")], observe=["recorded contents and process outputs at every step"])
prop("W03", "Stores stay finite, non-negative and within their capacity",
 "For finite forcing and admissible parameters, every recorded content and flux is a finite number, no store content and no flux is negative (except the bottomless exponential store of GR6J), and no store with a maximum capacity exceeds it at the end of a step. "
 "A configuration that cannot satisfy this is refused with an error instead of producing such values.",
 ["inputs", "configurations", "histories"], "all structures, solvers, extreme but admissible parameters and forcing (droughts, deluges, rapid freezing, tiny capacities), with land cover changes and lateral transport",
 "Tests exercise ordinary values; bounds break at simultaneous withdrawals, saturation, and empty stores.",
 [C+"containers/WaterContainer.cpp", C+"base/Processor.cpp", C+"base/SolverSequential.cpp", C+"processes/"],
 [("rate constraints before application", C+"containers/WaterContainer.cpp"), ("overflow process", C+"processes/ProcessOutflowOverflow.cpp")],
 observe=["recorded contents and outputs"])
prop("W04", "Land cover changes keep unit area and stored water",
 "After any sequence of land cover changes and glacier area updates, the cover fractions of each unit stay between 0 and 1 and sum to one, and the changed cover has the area asked for (clamped to the unit). "
 "The water and snow held by the area that changes cover is transferred to the receiving cover, so a change by itself neither creates nor destroys water or snow (only the ice of a vanishing glacier area leaves with it), and afterwards a cover with zero area neither receives nor releases anything. The generic cover takes or gives the difference (a request to change the generic cover itself has no effect), and a change that cannot be made is refused and leaves everything unchanged.",
 ["histories", "inputs", "configurations"], "all histories of changes (growing, shrinking, vanishing and re-appearing covers), several covers per unit, wet and snowy states, all structures with more than one cover",
 "Tests change one cover once or twice; conservation over repeated, vanishing and overlapping changes is a property of histories.",
 [C+"spatial/HydroUnit.cpp", C+"actions/ActionLandCoverChange.cpp", C+"bricks/LandCover.cpp", C+"bricks/SurfaceComponent.cpp"],
 [("area and content transfer between covers", C+"spatial/HydroUnit.cpp")], observe=["fractions and contents around each change"])
prop("W05", "Lateral snow transport conserves snow and follows its connections",
 "Snow moved between hydro units leaves the giver and arrives, within the same step, in the snowpacks of the connected receivers in the declared proportions, with depths scaled by the ratio of the areas, so the snow mass of the basin does not change by transport. "
 "Only snow above the giver's holding limit moves, it only moves along declared connections, no receiver above its maximum depth is loaded further, and a giver never gives more than it has.",
 ["inputs", "configurations", "histories"], "all connection graphs, unit areas, slopes, cover fractions and snow states, for the three transport schemes",
 "Tests use two or three units with equal or simple areas and one connection.",
 [C+"processes/ProcessLateral.cpp", C+"processes/ProcessLateralSnowSlide.cpp", C+"processes/ProcessLateralSnowRedistributionFrey.cpp", C+"spatial/HydroUnitLateralConnection.cpp"],
 [("area-ratio weights of lateral fluxes", C+"processes/ProcessLateral.cpp")], observe=["snow contents before and after every step", "recorded transport outputs"])
prop("W06", "Unit hydrograph routing delivers all water on its published schedule",
 "The delay functions of GR4J, GR6J and HBV (triangular) have non-negative ordinates that sum to one, so every unit of water entering them is delivered exactly once, over the published base time and with the published shape for any admissible base time, including when the base time changes between runs, while water is in transit in a saved state, or during a run: water follows the ordinates in force when it entered. "
 "Without groundwater exchange the routed discharge plus the water still held equals everything that entered.",
 ["inputs", "configurations", "histories"], "all base times (fractional, below one step, long), input pulses and sequences, repeated runs, parameter updates",
 "Tests check a few base times and totals; shape and conservation must hold for every real-valued base time and input history.",
 [C+"processes/ProcessRoutingGR4J.cpp", C+"processes/ProcessRoutingGR6J.cpp", C+"processes/ProcessRoutingHBV.cpp", C+"processes/helpers/"],
 [("S-curve ordinates and convolution buffers", C+"processes/ProcessRouting*.cpp, "+C+"processes/helpers/")], observe=["outlet discharge and internal storage series"])
prop("M01", "GR4J and GR6J reproduce the published model equations",
 "For any parameters X1-X6 within their range and any daily precipitation and potential evapotranspiration, the discharge, actual evapotranspiration and production store of the discrete GR4J and GR6J models follow the published equations step for step. "
 "This holds for any initial state reached, including net-zero days, dry spells, negative and positive groundwater exchange, and a routing store running empty.",
 ["inputs", "histories"], "all parameter vectors and daily forcing sequences, with and without CemaNeige snow",
 "Tests compare with a few reference numbers for one catchment; the equations have branches (net rain sign, exchange sign, store depletion, exponent limits) that a single series does not drive.",
 [C+"processes/ProcessProductionGR4J.cpp", C+"processes/ProcessInterceptionGR4J.cpp", C+"processes/ProcessETGR4J.cpp", C+"processes/ProcessRoutingGR4J.cpp", C+"processes/ProcessRoutingGR6J.cpp", C+"processes/helpers/"],
 [("production and routing functions", C+"processes/")], observe=["outlet discharge, ET and store series"])
prop("M02", "Snow and ice processes follow their documented laws",
 "At every step the melt, refreezing, retention, sublimation and snow-to-ice fluxes equal what their documented law (degree-day, aspect-dependent degree-day, temperature index, CemaNeige, holding capacity, constant or PET-proportional sublimation, constant or SWAT transformation) gives for the step's forcing, the unit's properties and the state, unless limited by the snow or water actually present. "
 "No snow melts below the melting temperature, ice under snow does not melt when so configured, and meltwater and rain held in the snow never exceed its holding capacity.",
 ["inputs", "configurations", "histories"], "all parameters, temperatures, radiation, seasons, aspects, hemispheres and snow states",
 "Tests verify laws on a handful of temperatures with a full snowpack.",
 [C+"processes/ProcessMelt*.cpp", C+"processes/ProcessRefreezeDegreeDay.cpp", C+"processes/ProcessOutflowSnowHolding.cpp", C+"processes/ProcessSublimation*.cpp", C+"processes/ProcessTransform*.cpp", C+"bricks/Snowpack.cpp", C+"bricks/Glacier.cpp"],
 [("process rate functions", C+"processes/")], observe=["recorded outputs and contents of snowpacks and glaciers"])
prop("M03", "Rain and snow partition precipitation exactly and by the chosen rule",
 "Every step's precipitation is divided into rain and snow by the chosen rule (linear transition, threshold, CemaNeige) with the snow share between 0 and 1, monotonically decreasing with temperature, and both shares sum to the precipitation before the optional rain and snow correction factors are applied to their own share. "
 "Each cover receives the full rain and snow depth of its unit, at the cover, its canopy or its snowpack as configured.",
 ["inputs", "configurations"], "all temperatures including the transition bounds, elevations around the CemaNeige limit, equal minimum and maximum temperature, correction factors, with and without snow processes",
 "Tests sample a few temperatures of each rule.",
 [C+"fluxes/SplitterSnowRainLinear.cpp", C+"fluxes/SplitterSnowRainThreshold.cpp", C+"fluxes/SplitterSnowRainCemaNeige.cpp", C+"fluxes/SplitterRain.cpp", C+"fluxes/SplitterMultiFluxes.cpp"],
 [("splitter rules", C+"fluxes/")], observe=["snow and water gained by covers and snowpacks"])
prop("M04", "Soil, evapotranspiration and runoff fluxes follow their laws and limits",
 "At every step the evapotranspiration, infiltration, runoff, percolation, capillary rise, threshold and linear outflow of each store equal what their documented law gives for the state and forcing of the step under the explicit Euler scheme, unless limited by the water present or the capacity of the target. "
 "Evapotranspiration never exceeds the (corrected) potential demand of the step nor the water available, with any scheme.",
 ["inputs", "configurations", "histories"], "all laws, parameters, contents from empty to full, forcing from zero to extreme",
 "Tests verify single laws at single states.",
 [C+"processes/ProcessET*.cpp", C+"processes/ProcessInfiltration*.cpp", C+"processes/ProcessRunoff*.cpp", C+"processes/ProcessOutflow*.cpp", C+"processes/ProcessPercolation*.cpp", C+"processes/ProcessCapillaryHBV.cpp"],
 [("process rate functions", C+"processes/"), ("rate constraints", C+"containers/WaterContainer.cpp")], observe=["recorded outputs and contents"])
prop("M05", "Every solver integrates the stores with its own scheme, accurately",
 "For networks of linear stores each solver produces the step-by-step result of the numerical scheme it names (explicit Euler, Heun, classical Runge-Kutta 4, implicit Euler, Crank-Nicolson, exponential Euler), the analytic solver gives the exact solution for piecewise-constant inflow, and synonyms of a solver name select the same scheme. "
 "For slow linear and non-linear stores all solvers agree within the error expected of their order.",
 ["inputs", "configurations", "histories"], "all response factors below the stability limit, inflow sequences, chains and branched networks of stores, all solver names",
 "Tests compare solvers on one or two reservoirs and one input.",
 [C+"base/Solver.cpp", C+"base/SolverEulerExplicit.cpp", C+"base/SolverHeunExplicit.cpp", C+"base/SolverRK4.cpp", C+"base/SolverImplicitEuler.cpp", C+"base/SolverCrankNicolson.cpp", C+"base/SolverExponentialEuler.cpp", C+"base/SolverAnalyticLinear.cpp", C+"base/SolverSequential.cpp", C+"base/Processor.cpp"],
 [("stage evaluation and combination", C+"base/Solver*.cpp")], observe=["contents and discharge of storage networks"])
prop("T01", "Every date of the period is simulated once, in order",
 "A run from a start to an end date with a step of days, hours or minutes simulates exactly the dates start, start+step, ... up to and including the last one not after the end, each once and in increasing order, and records exactly one row with that date for each. "
 "This holds for any length, leap years and sub-daily steps that are not representable exactly as fractions of a day.",
 ["inputs", "configurations"], "all start and end dates, step sizes and units, long periods",
 "Tests use daily steps over some days; accumulation errors and boundary cases need long and sub-daily periods.",
 [C+"base/TimeMachine.cpp", C+"base/ModelHydro.cpp", C+"base/Logger.cpp"], [("step counting and date increments", C+"base/TimeMachine.cpp")], observe=["recorded dates", "observation point at the end of each step"], hook="end of step event")
prop("T02", "Each step uses the forcing of its own date and its own unit",
 "At every simulated date each hydro unit is driven by exactly the forcing value given for that date and that unit identifier, however the forcing columns are ordered and however much data precede or follow the simulated period, for every run of the same model. "
 "Forcing that does not cover the period, has the wrong shape or misses a unit is refused before the simulation starts.",
 ["inputs", "configurations", "histories"], "all offsets, unit orders, daily and sub-daily forcing, repeated runs, replaced forcing, spin-up",
 "Tests attach data starting on the first simulated date in unit order.",
 [C+"base/TimeSeries.cpp", C+"base/TimeSeriesData.cpp", C+"base/TimeSeriesDistributed.cpp", C+"base/TimeSeriesUniform.cpp", C+"base/ModelHydro.cpp", C+"base/Forcing.cpp"],
 [("cursor positioning on the start date, unit identifier lookup", C+"base/TimeSeriesData.cpp, "+C+"base/TimeSeriesDistributed.cpp")], observe=["recorded fluxes equal to the forcing through a pass-through model"])
prop("T03", "Dates convert both ways and invalid dates are rejected",
 "Every valid calendar date and time converts to a modified Julian date and back without change, consecutive days differ by one, day of year and leap years follow the Gregorian calendar, and all supported text formats of one date give the same value. "
 "Text that is not a valid date in the given format (impossible days, months, hours, trailing characters) is rejected with an error.",
 ["inputs"], "all dates of several centuries, all times of day to the second, all supported formats, random and mutated text",
 "Tests check a few dates per format.",
 [C+"base/UtilsDateTime.cpp", C+"base/Utils.cpp", C+"base/TimeMachine.cpp"], [("conversion and parsing functions", C+"base/UtilsDateTime.cpp")], observe=["converted values"])
prop("T04", "Scheduled actions are applied exactly once, on their date, in order",
 "Every action scheduled for a date within the simulated period takes effect exactly once, at the first step at or after its date, in chronological order; recurring actions take effect once per matching day of the year, whatever the time step. "
 "Actions scheduled before the period are not lost or repeated inconsistently, the order in which actions of different dates were registered does not matter (those of one date apply in the order added), and a second run of the model applies them again identically.",
 ["histories", "configurations", "inputs"], "all sets of dates (unsorted, before, inside and after the period, first and last day), several actions, daily and sub-daily steps, with spin-up, repeated runs",
 "Tests schedule a few sorted dates inside the period.",
 [C+"actions/Action.cpp", C+"actions/ActionsManager.cpp", C+"actions/ActionLandCoverChange.cpp", C+"base/TimeMachine.cpp"],
 [("cursor over the ordered dates, recursive dates", C+"actions/ActionsManager.cpp")], observe=["fractions recorded at every step", "calls received by an action"])
prop("T05", "Spin-up equals running the warm-up beforehand",
 "A run with a spin-up of n days gives the same series as a run that starts from the state reached by simulating those first n days (as many whole time steps as fit in them, at most the whole period) once without recording, with the clock put back to the start. "
 "Spin-up days are not recorded, do not consume forcing or actions of the simulated period, and are repeated identically for each run.",
 ["configurations", "histories", "inputs"], "all lengths (0, one, whole period, longer), structures and solvers, repeated runs",
 "Tests check one short spin-up.",
 [C+"base/ModelHydro.cpp", C+"base/SettingsModel.cpp"], [("spin-up loop and rewinding", C+"base/ModelHydro.cpp")], observe=["recorded series", "observation point in the spin-up"], hook="end of spin-up step event")
prop("T06", "Time-varying parameters have their declared value at every date",
 "A parameter declared to vary by year, by month or by date has, at every simulated date, the value given for the year, the month or that date, whatever the time step (also sub-daily), the start of the period and the number of runs. "
 "When nothing is given for a date it keeps its value, and a series that does not fit its years, months or dates is refused and never used.",
 ["histories", "inputs", "configurations"], "all periods, time steps and value series, ascending or descending, incomplete or longer than the period, repeated runs",
 "Tests look up one date per kind of variation with a daily step.",
 [C+"base/ParameterModifier.cpp", C+"base/ParametersUpdater.cpp", C+"base/Parameter.cpp", C+"base/TimeMachine.cpp", C+"base/Utils.cpp"],
 [("update on change of date, month or year", C+"base/ParametersUpdater.cpp")], observe=["values of the parameters at every date of the timer"])
prop("S01", "Repeating a run after a reset reproduces it exactly",
 "Running a model, resetting it and running it again with the same forcing and parameters gives bit-for-bit identical outputs, whatever was run in between, and identical to a freshly built model. "
 "No state (contents, delay buffers, cold content, snow density, flux amounts, cover areas, action schedules, forcing cursors) survives a reset, and a run that is not preceded by one is refused once the model has been run.",
 ["histories", "configurations", "inputs"], "all structures, processes with memory, parameter changes in between, actions and lateral transport",
 "Tests repeat one or two models; leftovers hide in rarely used processes.",
 [C+"base/ModelHydro.cpp", C+"spatial/SubBasin.cpp", C+"bricks/", C+"processes/", C+"base/TimeMachine.cpp", C+"actions/"],
 [("reset of all components", C+"base/ModelHydro.cpp")], observe=["all outputs of both runs"])
prop("S02", "A run started from a saved state continues as an uninterrupted one",
 "Saving the state after a run as the initial state and then, after a reset, running with the forcing of the following period gives the same contents and fluxes as one uninterrupted run over both periods, and every later reset returns to that saved state. "
 "This covers the contents of every store and the memory of every process (delay lines, cold content, snow density).",
 ["histories", "configurations"], "all split points, structures and processes with memory, repeated resets",
 "Tests save a single storage's state.",
 [C+"base/ModelHydro.cpp", C+"bricks/Brick.cpp", C+"bricks/Snowpack.cpp", C+"containers/WaterContainer.cpp", C+"processes/"],
 [("save-as-initial-state", C+"base/ModelHydro.cpp")], observe=["all outputs"])
prop("S03", "Units are independent of their order, numbering and subdivision",
 "Without lateral transport, the series of a hydro unit depend only on its own properties and forcing: reordering or renumbering the units, adding other units, or splitting a unit into parts with the same properties leaves its stores and specific fluxes unchanged. "
 "The discharge is the area-weighted combination and changes accordingly only through the areas.",
 ["configurations", "inputs"], "all structures and unit sets, permutations, identifiers and splits",
 "Tests use fixed ordered units.",
 [C+"spatial/SubBasin.cpp", C+"spatial/HydroUnit.cpp", C+"base/ModelBuilder.cpp", C+"base/TimeSeriesDistributed.cpp"],
 [("per-unit components", C+"base/ModelBuilder.cpp")], observe=["all outputs of related models"])
prop("S04", "Changing parameters equals building the model with them",
 "Setting parameters on a built model and running gives exactly the same outputs as building a new model with those values, for any order and number of changes, and only the addressed component (or type of components) is affected. "
 "An unknown component or parameter name is reported as a failure and leaves every setting as it was.",
 ["histories", "configurations", "inputs"], "all parameters of all structures, by component and by type, in any order, between runs, valid and unknown names",
 "Tests set a few parameters on simple structures.",
 [C+"base/SettingsModel.cpp", C+"base/ModelBuilder.cpp", C+"base/ModelHydro.cpp", C+"base/Parameter.cpp", C+"processes/"],
 [("parameter lookup and propagation", C+"base/SettingsModel.cpp, "+C+"base/ModelBuilder.cpp")], observe=["outputs, return values, stored settings"])
prop("S05", "Structure variants change nothing for the units they fit",
 "Giving units without glaciers their own simpler structure variant yields, for every unit, the same stores and fluxes and the same basin discharge as building all units with the full structure and zero-area glaciers. "
 "Each unit uses the variant whose covers match those it has, and recorded series stay aligned with their labels for every unit.",
 ["configurations", "inputs"], "all unit mixes, cover sets, structures, parameter updates",
 "Tests check one mix of two units.",
 [C+"base/ModelBuilder.cpp", C+"base/SettingsModel.cpp", C+"base/Logger.cpp"], [("variant assignment and label union", C+"base/ModelBuilder.cpp, "+C+"base/SettingsModel.cpp")], observe=["all outputs of both models"])
prop("I01", "Recorded results are the simulated values and export unchanged",
 "Each recorded row holds the contents, fluxes, cover fractions and discharge of exactly that step's end and that unit under the right label, and the results file written afterwards contains the same dates, labels, unit identifiers, areas, structures and values that were recorded. "
 "Values not defined for a unit are marked missing rather than zero.",
 ["inputs", "configurations", "histories"], "all structures, selections of recorded items, unit counts and periods",
 "Tests check the presence of the file or a few values.",
 [C+"base/Logger.cpp", C+"base/ResultWriter.cpp", C+"base/FileNetcdf.cpp", C+"base/ModelHydro.cpp"], [("recording and writing", C+"base/Logger.cpp, "+C+"base/ResultWriter.cpp")], observe=["store contents at every step (observation point)", "results file read back independently"], hook="end of step event")
prop("I02", "Basin files are read faithfully or refused",
 "Reading a basin description file yields exactly the hydro units, areas, elevations, properties (with their units) and land covers it contains, for any number of units and covers, and a model built from it behaves as one built directly. "
 "A missing, truncated or malformed file is refused with an error and leaves the settings as they were; a basin that makes no sense (areas, fractions, connections) is refused at the latest when the model is built. "
 "A property asked for in its own unit, or an equivalent spelling, is the value given; in another unit it is converted, or refused when the two do not measure the same thing.",
 ["inputs", "fault_sequences"], "all valid basin files, and valid ones damaged by missing or renamed variables and attributes, wrong dimensions, wrong types, truncation and corruption",
 "Tests read one or two fixed valid files.",
 [C+"base/SettingsBasin.cpp", C+"base/FileNetcdf.cpp"], [("typed NetCDF access with checks", C+"base/FileNetcdf.cpp")], observe=["parsed settings vs the file's content"])
prop("I03", "Forcing files are read faithfully or refused",
 "Reading a forcing file yields, for every variable, exactly the dates, time step, unit identifiers and values it contains, so the simulation is the same as with the same data given directly. "
 "A file with missing, inconsistent or malformed content (other dimensions, irregular dates, other time units) is refused with an error and adds nothing.",
 ["inputs", "fault_sequences"], "all valid forcing files (daily and sub-daily, any units and variables) and damaged ones",
 "Tests read one fixed valid file.",
 [C+"base/TimeSeries.cpp", C+"base/FileNetcdf.cpp", C+"base/TimeSeriesData.cpp"], [("NetCDF parsing into series", C+"base/TimeSeries.cpp")], observe=["series read vs the file's content", "simulation outputs"])
prop("R01", "No input makes the core misuse memory or execute undefined behaviour",
 "For any sequence of calls to the public interface - valid or invalid structures, parameters, basins, forcing, actions, files, repeated runs and teardown - the core performs no invalid memory access, no undefined operation and no read outside its arrays, and releases what it allocates. "
 "Invalid requests end in a reported error, not in a crash or an endless loop. (The settings and the actions outlive the model that uses them, and the structure held by the settings is not edited once a model uses it.)",
 ["inputs", "configurations", "histories", "fault_sequences"], "all call sequences with valid, extreme and invalid arguments",
 "Tests run without sanitizers and with mostly valid inputs; memory errors need not change results.",
 [C+"base/", C+"spatial/", C+"bricks/", C+"processes/", C+"fluxes/", C+"actions/", C+"containers/"],
 [("validation before use, exceptions", C+"base/ModelBuilder.cpp, "+C+"base/Exceptions.h")], observe=["sanitizer reports, library assertions, process exit"])
prop("R02", "Independent models can run concurrently without influencing each other",
 "Building and running separate models in separate threads gives, for each, exactly the outputs it gives alone, with no data race between them. "
 "No hidden process-wide state connects two model instances. (The reading and writing of files, which goes through a library that is not thread-safe, is left out: files are read and written by one thread at a time.)",
 ["schedules", "configurations"], "all thread interleavings of independent models of different structures, with actions, forcing and logging",
 "Tests are single-threaded.",
 [C+"base/ModelHydro.cpp", C+"base/Log.cpp", C+"base/GlobVars.cpp", C+"base/Solver.cpp", C+"processes/Process.cpp"], [("per-instance state, immutable registries", C+"processes/Process.cpp")], observe=["race detector reports, outputs"])
prop("G01", "Glacier evolution follows its tables and keeps the ice budget",
 "Applying a glacier evolution table sets, at each application, the glacier area of every unit to the entry of the table that corresponds to the ice lost so far (the untouched glacier without any loss, the last entry when all ice is lost, never beyond the table), with areas and volumes consistent with the table, and the remaining ice is redistributed to the stated volumes. "
 "Snow turned into ice leaves the snowpack and enters the glacier in equal amount, and glacier ice never becomes negative or undefined.",
 ["histories", "inputs", "configurations"], "all tables, melt histories including none and complete melt, several units and glacier covers, repeated runs",
 "Tests use one table and one or two application dates.",
 [C+"actions/ActionGlacierEvolutionDeltaH.cpp", C+"actions/ActionGlacierEvolutionAreaScaling.cpp", C+"actions/ActionGlacierSnowToIceTransformation.cpp"],
 [("table lookup by relative ice loss", C+"actions/")], observe=["glacier areas and contents around each application"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
