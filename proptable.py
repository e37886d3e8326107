# The property table; executed by gen.py (prop() and N are defined there).
MC = ("stateless exhaustive enumeration of bounded executions of the real model library (the compiled sources of "
      "/repo), with an invariant or an independent reference evaluated on every enumerated execution")
NOTE = ("Explicit enumeration on the implementation itself: every case in the stated bounds is executed on the code "
        "built from /repo's working tree; no abstraction sits between the model and the code.")
ALPHA = "a 6-symbol weather alphabet (cold-dry, snowfall, mixed phase, 85 mm storm, hot-dry, light rain)"

prop("B01", "Water balance closes for every structure and weather history",
     "Over any simulated period, precipitation (after the declared corrections) plus melt of inexhaustible ice equals "
     "discharge plus evaporation and sublimation plus the change of all stored water, snow and ice. The balance closes "
     "after every time step, and the totals reported by the model satisfy it as well.",
     ["inputs", "histories", "configurations"],
     "Every weather history over a finite forcing alphabet up to the depth bound, for every combination of model "
     "structure, land-cover layout, snow routine, solver, time step and parameter set in the enumerated list.",
     "The unit tests check the balance of a handful of structures over one or two hand-written series; leaks need a "
     "given combination of structure, storage state and weather (e.g. an overflow while a store is fed by a land cover).",
     ["core/src/base/Processor.cpp", "core/src/base/Solver.cpp", "core/src/containers/WaterContainer.cpp",
      "core/src/containers/SnowContainer.cpp", "core/src/containers/IceContainer.cpp", "core/src/bricks", "core/src/processes",
      "core/src/fluxes", "core/src/base/Logger.cpp"],
     [("rates constrained by the available content and capacity", "WaterContainer::ApplyConstraints"),
      ("two-phase stepping of direct and solved storages", "Processor::ProcessTimeStep"),
      ("weighting of fluxes by areas", "Flux::UpdateFlux, ModelBuilder")],
     "a water ledger recomputed from the forcing, the recorded fluxes and the recorded contents",
     "all 6^4 weather histories of length 4 for ~500 structure/snow/solver/step/parameter configurations",
     "all 6^5 histories of length 5 for ~900 configurations",
     MC, NOTE, observe=["Logger::GetHydroUnitValues", "Logger::GetSubBasinValues", "ModelHydro::GetTotal*"])

prop("B02", "Stores and fluxes stay within their physical bounds",
     "No storage content and no flux is ever negative or not a number, no store holds more than its capacity, and "
     "evaporation never exceeds the potential evapotranspiration of the step.",
     ["inputs", "histories", "configurations"],
     "Every weather history over a finite forcing alphabet up to the depth bound for every configuration of the list.",
     "The tests assert bounds on a few hand-made runs; violations need a store close to empty or full when a given "
     "process or solver stage acts on it.",
     ["core/src/containers/WaterContainer.cpp", "core/src/base/Processor.cpp", "core/src/base/Solver.cpp", "core/src/processes"],
     [("clamping of rates", "WaterContainer::ApplyConstraints"), ("repeated constraint sweeps", "Processor::EnforceConstraints"),
      ("overflow process", "ProcessOutflowOverflow")],
     "invariants on every recorded state and flux of every step",
     "all 6^4 weather histories of length 4 for ~500 configurations", "all 6^5 histories for ~900 configurations",
     MC, NOTE + " The evaporation clause exempts the exponential Euler solver, which integrates the demand itself.")

prop("R01", "Resetting and running again reproduces the first run exactly",
     "After a reset, running the model again gives bit-for-bit the results of its first run, whatever runs, resets or "
     "re-attached forcing happened in between, including with land-cover actions, glacier evolution and spin-up.",
     ["histories", "configurations"],
     "Every sequence of re-run operations up to the depth bound, for every stateful structure of the list and several "
     "weather histories, plus every weather history up to its depth with one re-run.",
     "Tests re-run a couple of structures once; a forgotten piece of state only shows for the structure, the weather and "
     "the sequence that leave it non-zero.",
     ["core/src/base/ModelHydro.cpp", "core/src/spatial/SubBasin.cpp", "core/src/spatial/HydroUnit.cpp", "core/src/bricks",
      "core/src/processes", "core/src/actions"],
     [("recursive reset of bricks, processes, fluxes and actions", "ModelHydro::Reset"),
      ("restored land-cover extents", "LandCover::Reset"), ("rewound forcing cursors", "TimeSeries*::SetCursorToDate")],
     "bitwise comparison of all recorded outputs with the first run",
     "operation sequences up to length 3 x 5 weathers and all 6^4 weather histories for ~90 structures",
     "sequences up to length 5 and all 6^5 weather histories for ~145 structures", MC, NOTE)

prop("R02", "A reused model equals a freshly built one after updates",
     "Updating the parameters or exchanging the forcing of a living model, then resetting and running it, gives exactly "
     "the results of a model freshly built with these parameters and this forcing.",
     ["histories", "configurations"],
     "Every sequence of switches between three parameter sets and two forcings up to the depth bound, per structure.",
     "Calibration loops rely on this for thousands of updates; tests update one parameter once in one or two structures.",
     ["core/src/base/ModelHydro.cpp", "core/src/base/ModelBuilder.cpp", "core/src/processes", "core/src/base/Parameter.cpp"],
     [("parameters pushed to bricks, processes and splitters", "ModelHydro::UpdateParameters"),
      ("derived values (unit hydrographs, weights) recomputed", "ProcessRouting*::SetParameters")],
     "bitwise comparison with a freshly built model",
     "switch sequences up to length 3 over 6 versions for ~90 structures", "length 4, ~145 structures", MC, NOTE)

prop("D01", "Calendar conversions are exact and mutually inverse",
     "Every valid civil date and time converts to its modified Julian date and back to the same date and time, invalid "
     "dates are refused, the day of the year is right, and adding time steps to a date is exact.",
     ["inputs"], "Every day of the enumerated range of years at every hour, every second of selected days, every "
     "invalid day or month number, every increment in range.",
     "Tests convert some twenty dates; off-by-one errors live at leap days, century years and rounding boundaries.",
     ["core/src/base/UtilsDateTime.cpp", "core/src/base/TimeMachine.cpp"],
     [("civil date to MJD", "UtilsDateTime::ToMJD"), ("MJD to civil date with rounding to the second", "GetTimeStructFromMJD")],
     "an independent days-from-civil algorithm", "1800-2200 by hour", "1600-2800 by hour", MC, NOTE)

prop("D02", "Date texts are read as the date they denote, or refused",
     "Every date text in a supported layout is read as exactly the date and time it denotes, both with the declared "
     "layout and when the layout is guessed; a text that denotes no existing date is refused.",
     ["inputs"], "Every day from 1900 to 2100 in each of 28 layouts at several times of day, with declared and guessed "
     "layout, and every out-of-range day/month number.",
     "Tests parse one date per layout; the guesser and the parser can swap fields or accept impossible days elsewhere.",
     ["core/src/base/UtilsDateTime.cpp"], [("layout guess and stream parsing", "ParseDate")],
     "rendering of a known date; independent calendar", "28 layouts x 201 years x every day",
     "the same (already exhaustive over the range)", MC, NOTE)

prop("T01", "The simulation clock visits every step of the period exactly once",
     "The simulation visits the dates start, start + step, ... up to the end date, each exactly once, and the number of "
     "steps announced equals the number visited, for every supported time step and period length.",
     ["inputs", "configurations"], "Every time step size, start date and number of steps in the bounds, incl. ends that "
     "fall inside a step, and long simulations.",
     "Accumulated floating-point error only shows for sub-daily steps and long periods; tests use a few days.",
     ["core/src/base/TimeMachine.cpp", "core/src/base/ModelHydro.cpp"],
     [("clock increments", "TimeMachine::IncrementTime"), ("number of steps", "TimeMachine::GetTimeStepCount")],
     "integer minute arithmetic", "4 units x 10 step sizes x 5 starts x up to 400 steps, plus long runs",
     "up to 3000 steps", MC, NOTE)

prop("P02", "Time-varying parameters take the value declared for each date",
     "A parameter given per year, per month or per date has, on every simulated step, the value declared for that date, "
     "for every time step length, start date and period; constant parameters never change.",
     ["inputs", "configurations"], "Every combination of time step, start date, first year, number of years and date "
     "spacing in the bounds, on every step of the simulated period, twice.",
     "Tests step over one year change; sub-daily steps, multi-year jumps and dates given as decimals are untested.",
     ["core/src/base/ParameterModifier.cpp", "core/src/base/ParametersUpdater.cpp", "core/src/base/TimeMachine.cpp"],
     [("updates on date, month and year change", "ParametersUpdater::DateUpdate"), ("lookup", "ParameterModifier::UpdateValue")],
     "table lookup with integer calendar arithmetic", "12 time steps (10 min to 400 days) x 6 starts x 48 tables, two parameters of each kind, all steps", "the same", MC,
     NOTE + " The dated values are observed on the parameter objects through the simulation clock.")

prop("T02", "Each unit receives the forcing of its own identifier and date",
     "On every step each unit receives the precipitation, temperature and evapotranspiration given for its identifier "
     "and that date, whatever the column order, the data before or after the period, and the spin-up; data that do not "
     "cover the period, have another time step or an inconsistent shape are refused.",
     ["inputs", "configurations"], "Every combination of time step, start, length, leading/trailing data, spin-up length and "
     "unit order in the bounds.",
     "Tests use one aligned daily series; misalignment needs offset data, sub-daily steps or permuted units.",
     ["core/src/base/TimeSeries.cpp", "core/src/base/TimeSeriesData.cpp", "core/src/base/TimeSeriesDistributed.cpp",
      "core/src/base/ModelHydro.cpp", "core/src/base/Forcing.cpp"],
     [("cursor position", "TimeSeriesDataRegular::SetCursorToDate"), ("attachment by identifier", "ModelHydro::AttachTimeSeriesToHydroUnits")],
     "unique value per unit and date, decoded from the received rain, snow and evaporation",
     "9 steps x 3 starts x 4 lengths x 9 lead x 3 tail x 3 spin-up x 6 orders", "11 lengths up to 100 steps", MC, NOTE)

prop("L01", "Land-cover changes conserve water and keep covers a partition",
     "Whatever land-cover changes are scheduled, the cover extents of a unit stay in [0,1] and sum to one, equal the "
     "declared extents at their dates, and no stored water or snow is created or lost: what lies on the land that changes hands stays on it. A change the unit "
     "cannot accommodate is an error that leaves the extents a partition.",
     ["histories", "inputs", "configurations"], "Every assignment of at most one cover change to each of the first steps, "
     "for every snow routine, structure and 8 weather histories.",
     "Tests apply a few isolated changes and do not follow the stored water; transfers matter when stores are filled "
     "and covers appear or vanish.",
     ["core/src/spatial/HydroUnit.cpp", "core/src/actions/ActionLandCoverChange.cpp", "core/src/bricks/LandCover.cpp",
      "core/src/base/Processor.cpp"],
     [("transfer of contents between covers", "HydroUnit::ChangeLandCoverAreaFraction"), ("extent check", "Action::CheckLandCoverAreaFraction")],
     "water ledger and replay of the declared extents; mixing of the snow and intercepted water of the strips of land", "3 consecutive change opportunities x 6-16 options (small ones and nearly vanished covers included) x 8 weathers x ~110 structures, cold starts and from an earlier run",
     "4 opportunities", MC, NOTE)

prop("L02", "Dated changes take effect at their date in any declaration order",
     "A land-cover change takes effect on the first step not earlier than its date and never outside the period, and the "
     "result does not depend on the order or the grouping in which the changes were declared.",
     ["schedules", "histories"], "Every multiset of change dates, every declaration order and grouping into actions in "
     "the bounds, for four time steps.",
     "Tests declare changes in chronological order in one action; the merge of schedules has many more orders.",
     ["core/src/actions/ActionsManager.cpp", "core/src/actions/Action.cpp", "core/src/actions/ActionLandCoverChange.cpp"],
     [("sorted schedule and cursor", "ActionsManager::AddAction, DateUpdate"), ("sorted insertion", "Action::GetIndexForInsertion")],
     "replay of the declared changes by date", "up to 4 changes x 24 orders x 2 groupings x 4 time steps; all exchanges between two covers on the same date",
     "up to 5 changes x 120 orders x 3 groupings", MC, NOTE)

prop("G01", "Glacier retreat follows its tables and conserves ice",
     "With a glacier evolution driven by lookup tables, once per year the glacier extents are the ones of the table "
     "entry for the share of the initial ice lost so far, also when it grows back, the change keeps every millimetre of ice, and at any other "
     "date neither extents nor ice move except by melt and snow conversion. A reset restores the initial extents and ice.",
     ["histories", "configurations"], "Every table shape, table size, number of units, snow routine, time step and "
     "weather cycle in the bounds, with every yearly update of a run from full glacier to no ice.",
     "The tests use two hand-made tables with a fixed melt; the defects are in rows reached only by some melt histories.",
     ["core/src/actions/ActionGlacierEvolutionDeltaH.cpp", "core/src/actions/ActionGlacierEvolutionAreaScaling.cpp",
      "core/src/bricks/Glacier.cpp", "core/src/spatial/HydroUnit.cpp"],
     [("row lookup and area update", "ActionGlacierEvolutionDeltaH::Apply"), ("content rescaling", "ActionGlacierEvolution*"),
      ("land-cover fraction change", "HydroUnit::ChangeLandCoverAreaFraction")],
     "an independent reading of the table from the recorded melt and conversion, and an ice ledger in mm m2",
     "2 evolution methods x 3 table shapes x 4 sizes x 1-3 units x 3 snow routines x weather cycles, with and without snow turning to ice (growth) and with units listed without glacier",
     "all weather cycles of length up to 4, ice depths 2 m and 20 m, more table sizes", MC, NOTE)

prop("G02", "Snow on glaciers turns into ice exactly on the declared day of each year",
     "At every occurrence of the declared day and month within the period, all snow lying on the glacier becomes "
     "ice, at no other step does any snow convert, and snow outside the glaciers is untouched. This holds for "
     "any length of the time step and any start of the period.",
     ["schedules", "histories"], "All months, a set of days (incl. 29, 30, 31), start dates and time steps from an hour "
     "to 122 days, over each weather history of the bounds.",
     "The tests apply the conversion once, at a daily step.",
     ["core/src/actions/ActionGlacierSnowToIceTransformation.cpp", "core/src/actions/Action.cpp",
      "core/src/actions/ActionsManager.cpp"],
     [("yearly dates", "Action::ApplyIfRecursive"), ("once a day", "ActionsManager::DateUpdate")],
     "a calendar replay and a snow and ice ledger", "12 months x 8 days x 3 starts x 8 time steps x weather histories, with one or two declared days",
     "all days of the month and all weather histories of length 4", MC, NOTE)

prop("S01", "The basin is the sum of its units, whatever their order",
     "Without lateral transport every unit behaves as if it were alone, and the discharge is the area-weighted sum of its "
     "units. Listing the units or covers in another order, renumbering the units, splitting a unit or a "
     "cover into identical parts, or scaling all areas changes no result.",
     ["inputs", "configurations"], "All weather histories over the alphabet up to the depth, different in each of three "
     "units of unequal area and cover, all orders of units and of covers, for every structure of the list.",
     "The tests run one unit, or several identical ones; the weighting of fluxes and the shared solver state couple units.",
     ["core/src/base/ModelBuilder.cpp", "core/src/base/Processor.cpp", "core/src/fluxes/Flux.cpp", "core/src/processes",
      "core/src/spatial/SubBasin.cpp", "core/src/spatial/HydroUnit.cpp"],
     [("area weights of fluxes", "ModelBuilder::BuildFluxes, Flux::UpdateFlux"), ("rates of all units in one vector", "Processor::EvaluateRates"),
      ("delivery schedule of a unit", "ProcessRoutingHBV::Finalize")],
     "metamorphic relations between runs of the real model", "6^3 histories x 56 configurations x all orders of 3 units and covers",
     "6^4 histories x all solvers", MC, NOTE + " GR structures are defined for a single cover, so the cover clauses leave them out.")


prop("N01", "Stores follow their outflow equations under the chosen scheme",
     "On every step the outflow, evaporation and percolation of every store, and what remains in it, are those of its "
     "declared equations and parameters integrated over the step with the chosen numerical scheme. When the demands exceed "
     "the water available they share it in proportion, and water above the capacity leaves by the overflow in the same step.",
     ["configurations", "histories"],
     "Every chain of one or two (three) stores out of 22 variants of 11 store types, and feedback by capillary rise, each "
     "with every solver, several time steps and every inflow history of the bounds.",
     "The tests compare a single linear store with an analytic solution; the coupling of stores, the limits and the "
     "stages of the schemes meet in combinations no test samples.",
     ["core/src/base/Solver.cpp", "core/src/base/SolverSequential.cpp", "core/src/base/SolverRK4.cpp",
      "core/src/base/Processor.cpp", "core/src/containers/WaterContainer.cpp", "core/src/processes"],
     [("stages of the schemes", "Solver*::Solve, SolverSequential::ComputeBrickRates"),
      ("limits", "WaterContainer::ApplyConstraints, Processor::EnforceConstraints"), ("outflow equations", "Process*::GetRates")],
     "an independent implementation of the equations and schemes, one step from every recorded state",
     "22 single stores, 242 chains of 2 and 20 capillary networks x 7 solvers x 2 time steps x all inflow histories",
     "also all chains of 3 stores, 4 time steps, histories of length 5", MC, NOTE)

prop("N02", "Canopy, snow, ice and covers follow their declared routines",
     "On every step interception, melt, retention, refreezing, sublimation, ice formation, ice melt and the separation into "
     "infiltration and runoff are those of the declared routine with the parameters of that cover, and the storages below "
     "receive exactly that water in proportion to the cover and unit areas.",
     ["configurations", "histories"],
     "Every weather history over the alphabet up to the depth bound for every snow routine, cover layout, soil layout, "
     "aspect, time step and solver of the list, with parameters that differ for every cover.",
     "The tests check single processes on a single cover; wrong order of the processes, parameters of another cover or a "
     "limit applied to the wrong storage need particular states of canopy, pack and store.",
     ["core/src/processes", "core/src/bricks", "core/src/containers", "core/src/base/Processor.cpp", "core/src/fluxes",
      "core/src/base/ModelBuilder.cpp", "core/src/base/SettingsModel.cpp"],
     [("order of the processes of a cover", "Processor::ApplyDirectChanges"), ("melt routines", "ProcessMelt*::GetRates"),
      ("limits", "SnowContainer, IceContainer"), ("soil filling", "ProcessInfiltration*::GetRates")],
     "an independent implementation of the routines, one step from every recorded state",
     "6^4 weather histories x ~490 configurations", "6^5 weather histories x ~490 configurations", MC, NOTE)

prop("N03", "Precipitation is split into rain and snow by the declared rule",
     "Every step, unit and cover receives as snow the share of the precipitation given by the declared rule at its "
     "temperature, extremes and elevation, and the rest as rain, each times its correction factor, whatever came before.",
     ["inputs", "configurations"],
     "All combinations of rule, parameters, correction factors, elevations around the limit, temperatures on a grid with "
     "every threshold and its neighbours, and temperature extremes.",
     "The tests check a few temperatures per rule; boundary values, elevations and factors combine.",
     ["core/src/fluxes/SplitterSnowRainLinear.cpp", "core/src/fluxes/SplitterSnowRainThreshold.cpp",
      "core/src/fluxes/SplitterSnowRainCemaNeige.cpp", "core/src/fluxes/SplitterMultiFluxes.cpp"],
     [("rules", "SplitterSnowRain*::Compute"), ("distribution to the covers", "SplitterMultiFluxes::Compute")],
     "the published rules evaluated independently, on snow and rain measured in the stores",
     "165 rule/parameter/cover cases x 9 elevations x ~250 forcings", "~500 cases x ~650 forcings", MC, NOTE)

prop("N04", "GR4J and GR6J runs follow the published model equations",
     "For every parameter set and weather, the interception, evaporation, production, percolation, delays, exchange, "
     "stores and discharge of the GR4J and GR6J models are those of the published equations, at every step; the water "
     "reported inside the routing is what entered, was exchanged, and has not left.",
     ["inputs", "histories", "configurations"],
     "All weather histories over the alphabet up to the depth bound followed by a recession longer than the delays, for "
     "grids of the parameters, three snow routines, one and two units, and the continuous variant with each store-by-store "
     "solver.",
     "The tests compare one reference series; the delay ordinates, the signs of the exchange, and empty or nearly full "
     "stores combine in other ways.",
     ["core/src/processes/ProcessProductionGR4J.cpp", "core/src/processes/ProcessRoutingGR4J.cpp",
      "core/src/processes/ProcessRoutingGR6J.cpp", "core/src/processes/helpers", "core/src/processes/ProcessInterceptionGR4J.cpp",
      "core/src/processes/ProcessETGR4J.cpp", "core/src/base/Processor.cpp"],
     [("unit hydrographs", "gr_uh::ComputeOrdinates, ProcessRoutingGR4J::_recomputeUH"), ("stores and exchange", "ProcessRoutingGR*::Finalize"),
      ("production", "ProcessProductionGR4J")],
     "an independent implementation of the published equations",
     "6^4 weather histories x ~130 configurations", "6^5 weather histories x ~190 configurations", MC, NOTE)

prop("N05", "The HBV transfer function delays water by the declared triangle",
     "The water received in a step is delivered over the following steps in the shares of a symmetric triangle of the "
     "declared base, at once when the base does not exceed one step; nothing is lost, created or delivered out of turn, "
     "and the water reported in transit is what was received and not yet delivered.",
     ["histories", "configurations"],
     "All weather histories up to the depth bound and their recession, for bases below, at and between whole steps, every "
     "solver, direct, linear, overflowing and complete HBV upstream parts, one and two units.",
     "The tests follow single pulses with one solver; the ordering with the upstream stores, the stage evaluations and "
     "pulses that overlap matter.",
     ["core/src/processes/ProcessRoutingHBV.cpp", "core/src/base/Processor.cpp", "core/src/fluxes"],
     [("schedule", "ProcessRoutingHBV::Finalize"), ("same-step share", "ProcessRoutingHBV::GetRates"), ("ordinates", "ProcessRoutingHBV::_recomputeUH")],
     "the integral of the triangle, applied to the recorded inflow; exact where the inflow is settled when the transfer "
     "is evaluated, within the share of the current step otherwise",
     "6^3 weather histories x ~300 configurations, and second runs with another base from a saved state", "6^4 weather histories x ~600 configurations", MC, NOTE)

prop("R03", "Spin-up and saved initial states continue the simulation",
     "A run with a spin-up gives exactly what a run started that much earlier with the same weather gives over the "
     "simulated period. After the state of a run is saved as the initial one, every reset and run continues from it "
     "exactly as if the simulation had gone on.",
     ["histories", "configurations"],
     "All weather histories up to the depth bound, spin-ups shorter and longer than the period, and pairs of consecutive "
     "histories, on configurations covering every element with a memory (routing, thermal state, snow density, transfers "
     "in progress, changing extents).",
     "The tests look at the contents of stores after one run; memories outside the stores only show in what follows.",
     ["core/src/base/ModelHydro.cpp", "core/src/bricks", "core/src/containers", "core/src/processes", "core/src/fluxes"],
     [("spin-up", "ModelHydro::RunSpinup, RewindAfterSpinup"), ("saved state", "ModelHydro::SaveAsInitialState and the elements below")],
     "the run over the joined weather", "~55 configurations x (5 spin-ups x 5 histories + 6^3 histories x 3)",
     "~90 configurations x (25 + 6^4 histories x 6)", MC, NOTE)

prop("R04", "Models living side by side do not influence each other",
     "Whatever other models are built, run, reset or destroyed in between in the same program, a model gives exactly the "
     "results it gives alone.",
     ["schedules", "configurations"],
     "All interleavings of the life cycles (build, initialise, run, reset and run, destroy) of two models, for pairs of "
     "equal, similar and different structures, including actions and spin-up.",
     "The tests build one model at a time; shared state only shows in particular orders.",
     ["core/src/base", "core/src/processes", "core/src/fluxes", "core/src/actions", "core/src/bricks"],
     [("state owned by a model", "ModelHydro, Process::Factory, Solver::Factory, Splitter::Factory, ContentTypes")],
     "the results of each model alone", "252 interleavings x ~165 pairs", "252 interleavings x ~260 pairs", MC, NOTE)

prop("S02", "Snow moved between hydro units follows the declared rule",
     "Each step, snow above the holding capacity given by the declared rule for the pack's slope, depth and density, and "
     "only that, leaves for the declared receivers in the declared shares, spread over their covers by extent, refused only "
     "where the receiver is overfull; it arrives in the same step, scaled by the areas, nothing lost or created.",
     ["configurations", "histories"],
     "All snow histories up to the depth bound for the three transport rules, five connection topologies including cycles, "
     "every listing order of the units, two cover layouts with absent covers, two parameter sets and two time steps.",
     "The tests move snow once between two units; relays through several units in any order, limits and densities that "
     "evolve need histories.",
     ["core/src/processes/ProcessLateral.cpp", "core/src/processes/ProcessLateralSnowSlide.cpp",
      "core/src/processes/ProcessLateralSnowRedistributionFrey.cpp", "core/src/fluxes/FluxToBrickInstantaneous.cpp",
      "core/src/base/ModelBuilder.cpp", "core/src/base/Processor.cpp", "core/src/bricks/Snowpack.cpp"],
     [("excess", "ProcessLateralSnow*::GetRates"), ("area scaling", "ProcessLateral::ComputeFractionAreas"),
      ("connections", "ModelBuilder::BuildHydroUnitBricksFluxes"), ("end of step", "Processor::ProcessTimeStep")],
     "an independent implementation of the rules and a ledger of every pack, one step from every recorded state",
     "6^3 snow histories x 480 configurations", "6^5 snow histories x ~620 configurations", MC, NOTE)

prop("V01", "Structure variants give what one complete structure gives",
     "When hydro units are served by different variants of a structure, each unit follows the smallest variant that holds "
     "its covers and gives exactly what it gives under one complete structure, in every recorded value, at the outlet and "
     "in the totals, also after the parameters are changed.",
     ["configurations", "inputs"],
     "Every pair of non-empty cover subsets over three cover universes for lists of variants in different orders, with "
     "four structures, five snow routines, two parameter sets, an open-water variant at every place, a change of all "
     "parameters, and all weather histories up to the depth bound.",
     "The tests check a few assignments; parameters, targets and recorded positions that belong to another variant only "
     "show for particular units and orders.",
     ["core/src/base/ModelBuilder.cpp", "core/src/base/SettingsModel.cpp", "core/src/base/Logger.cpp", "core/src/spatial/SubBasin.cpp"],
     [("assignment", "ModelBuilder::AssignHydroUnitStructures"), ("per-unit building", "ModelBuilder::CreateHydroUnitsComponents"),
      ("parameters of the variants", "SettingsModel::SetParameterValue, ModelBuilder::UpdateHydroUnitsParameters")],
     "the same units under one structure with every cover (differential), weighted sums for the open-water units",
     "6^2 weather histories x ~3,300 configurations", "6^3 weather histories x ~9,500 configurations", MC, NOTE)

prop("O01", "What is recorded does not change the run or the records",
     "Whatever selection of items is recorded, the run is the same: every selected item and nothing else is recorded, with "
     "exactly the values it has when everything is recorded, and the dates, the outlet and the totals are the same. "
     "The recorded rain and snow add up to the precipitation.",
     ["configurations", "histories"],
     "Every single item, every all-but-one selection, all subsets of a spread of items, empty and complete selections in "
     "both orders, with and without cover extents, over structures with spin-up, lateral transport, scheduled changes and "
     "structure variants and basin stores whose names contain the name of the discharge, and all weather histories up to the depth bound.",
     "The tests record a handful of items of one structure; positions of values among selected items shift with every selection.",
     ["core/src/base/Logger.cpp", "core/src/base/ModelBuilder.cpp", "core/src/base/SettingsModel.cpp"],
     [("labels", "SettingsModel::GetHydroUnitLogLabels, GetSubBasinLogLabels"), ("values", "ModelBuilder::ConnectLoggerToValues"),
      ("recording", "Logger::Record")],
     "the run with everything recorded, bit for bit", "6^2 histories and 2 x (items + 2^6 subsets) x ~76 configurations",
     "6^3 histories and 2 x (items + 2^9 subsets) x ~130 configurations", MC, NOTE)

prop("O02", "The results file holds exactly the recorded run",
     "The results file, read back, holds every recorded value, date, name, unit identity, area, structure and cover extent "
     "bit for bit in the documented layout, for any selection of recorded items, also when it replaces an older file or a "
     "second run. Writing disturbs neither the records nor later runs, and a missing directory is reported without a trace.",
     ["configurations", "histories"],
     "All first-step symbols (quick) or histories (thorough) over structures with spin-up, lateral transport, scheduled "
     "changes and variants, four recording selections including nothing but the outlet, older files present or not.",
     "The tests check that a file appears; its content for several units, empty selections and replaced files is not read back.",
     ["core/src/base/ResultWriter.cpp", "core/src/base/FileNetcdf.cpp", "core/src/base/Logger.cpp"],
     [("layout", "ResultWriter::WriteNetCDF"), ("values", "FileNetcdf::PutVar, PutAttString")],
     "the records of the model, read back with the NetCDF library", "~230 configurations x 6", "~520 configurations x 36", MC, NOTE)

prop("C02", "Input files describe the same model as direct declarations",
     "Hydro units and forcing read from files give exactly the model declared directly: the same units, covers, properties "
     "and values at the same dates, whatever the layout, the order of dimensions, variables and units, the numeric types, "
     "the accepted names and the time step. Files whose dates and values are inconsistent or incomplete are refused.",
     ["configurations", "inputs"],
     "All combinations of dimension and variable order, numeric types, unit order, names, extra dates and eight time "
     "steps for forcing files; all cover lists, variable orders, unrelated variables, angle units and numeric types for "
     "unit files; malformed files; and all first symbols (quick) or histories (thorough) of the weather.",
     "The tests read two files of one layout with daily dates.",
     ["core/src/base/SettingsBasin.cpp", "core/src/base/TimeSeries.cpp", "core/src/base/FileNetcdf.cpp", "core/src/spatial/HydroUnitProperty.cpp"],
     [("units", "SettingsBasin::Parse"), ("forcing", "TimeSeries::Parse"), ("properties", "HydroUnitProperty::GetValue")],
     "the same model declared directly (bit for bit)", "~5,400 layouts x 6", "~13,000 layouts x 36", MC, NOTE)

prop("P01", "Parameter assignments reach exactly the parameters they name",
     "Assigning a parameter to a component, to a list of components or to all components of a type gives it that value in "
     "each of them, in every structure variant, and changes nothing else; before building or in a living model it then "
     "counts the same. An assignment that finds no such component or no such parameter is reported.",
     ["programs", "configurations"],
     "Every (component, type or list of two or three, parameter) pair, existing or not, on structures covering all "
     "storages, land covers, snow routines, basin stores and structure variants, alone and in sequences of two (quick) or "
     "three (thorough) assignments of the parameter, with every variant selected; every assignment also run.",
     "The tests set a dozen parameters in single structures; lists, types and variants reach other elements only in combinations.",
     ["core/src/base/SettingsModel.cpp", "core/src/base/ModelBuilder.cpp", "core/src/bricks/Glacier.cpp"],
     [("assignment", "SettingsModel::SetParameterValue, SetParameterValueInSelectedStructure"),
      ("living models", "ModelBuilder::UpdateHydroUnitsParameters")],
     "the complete dictionary of declared parameters before and after, and runs with each parameter set where it was declared",
     "~9,000 sequences and ~4,000 runs", "~9,000 x 5 sequences and ~8,000 runs", MC, NOTE)

prop("C01", "A faulty model description is refused, never ignored and never a crash",
     "A set-up with a fault — missing or unattached forcing, an impossible area, share, date or step, a unit, land cover, "
     "component, type, parameter or unit of measure that does not exist, the same name twice, or tables that do not match "
     "the units — is refused with an error at the latest when the run is started or the faulty change is due. It never crashes "
     "the program and is never silently ignored; the same set-up without the fault runs.",
     ["configurations", "fault_sequences"],
     "Every single fault of the enumerated classes at every place of ~150 structures (every component, process, "
     "parameter, forcing, connection, unit, cover, action) that together contain all shipped components.",
     "The tests inject about twenty faults by hand in single components.",
     ["core/src/base/ModelBuilder.cpp", "core/src/base/ModelHydro.cpp", "core/src/spatial/HydroUnit.cpp", "core/src/spatial/SubBasin.cpp",
      "core/src/base/SettingsModel.cpp", "core/src/base/TimeMachine.cpp", "core/src/actions"],
     [("validation", "SubBasin::IsValid, HydroUnit::IsValid, Process::IsValid, Splitter::IsValid"),
      ("building", "ModelBuilder::BuildModelStructure"), ("forcing", "ModelHydro::AddTimeSeries, Run")],
     "the outcome of the real set-up in a process of its own: refused, accepted or crashed", "~23,000 single faults of ~150 structures",
     "the same and ~200,000 pairs of faults", MC, NOTE)

prop("C03", "Calls made in the wrong order are refused and harm nothing",
     "Whatever the order in which a model is set up, given data, run, reset, saved, updated, given land cover changes, read and "
     "written out, every call either does its work or is refused, without crashing. A run happens exactly when the model is set up, has "
     "its data attached and has been reset since the last run, and its results are those of the same work done in the "
     "usual order; refused calls do not change the results.",
     ["histories"],
     "All sequences of thirteen kinds of calls of length three or four, from a fresh model and from three stages of a usual "
     "session, for three models (semi-distributed with glacier, with spin-up, with forcing beyond the period).",
     "The tests call everything once in the usual order, or one call out of order.",
     ["core/src/base/ModelHydro.cpp", "core/src/base/Logger.cpp", "core/src/actions/ActionsManager.cpp", "core/src/spatial/SubBasin.cpp"],
     [("session", "ModelHydro::InitializeWithBasin, Run, Reset, SaveAsInitialState, UpdateParameters, AttachTimeSeriesToHydroUnits, DumpOutputs")],
     "an automaton of the session, and the records and totals of the straight session with the same history, bit for bit",
     "~185,000 sessions", "~343,000 sessions with address and undefined-behaviour sanitizers", MC, NOTE, flavour={"quick": "rel", "thorough": "san"})

PYNOTE = NOTE + (" The Python package is the unchanged one of the working tree; it runs on the real core through the real binding "
                 "source. Of the third-party libraries, pybind11, pandas, xarray, netCDF4, matplotlib, HydroErr, pyet, spotpy and cftime are absent "
                 "here "
                 "and replaced by stand-ins (validated with the repository's own Python tests); a feature they lack makes a case "
                 "undecided, never a violation.")

prop("M01", "Every shipped model is assembled exactly as documented",
     "For every combination of the documented options and land covers, a Socont, HBV-96, GR4J or GR6J model consists of exactly the "
     "components, processes, connections and forcing that its documentation describes, with one structure variant per kind of unit: "
     "every option takes effect, none changes anything else, and the description files give the same model again. Options and land covers that are documented as unsupported are refused.",
     ["configurations"],
     "All combinations of the options of the four shipped models with all relevant land cover lists.",
     "The tests build about forty configurations and look at a few bricks of each.",
     ["python/src/hydrobricks/models/model.py", "python/src/hydrobricks/models/socont.py", "python/src/hydrobricks/models/hbv.py",
      "python/src/hydrobricks/models/hbv_96.py", "python/src/hydrobricks/models/gr4j.py", "python/src/hydrobricks/models/gr6j.py",
      "python/src/hydrobricks/models/model_settings.py", "python/src/hydrobricks/modules/glacier.py", "core/src/base/SettingsModel.cpp"],
     [("structures", "Socont/HBV96/GR4J/GR6J._define_structure"), ("options", "Model._set_options"),
      ("variants", "GlacierModule, ModelSettings.generate_base_structure")],
     "the documented structure, written out independently per option, compared as sets with the structure exported from the core",
     "~2,700 configurations", "all ~9,000 configurations", MC, PYNOTE, flavour="py")

prop("M02", "Every shipped model runs on a real catchment and closes its water balance",
     "Every combination of the documented options and land covers of the shipped models, with every solver, can be set up on a catchment of "
     "several connected units and run with parameters in their ranges. The recorded stores and fluxes are numbers and not negative, "
     "precipitation (plus ice lost) equals discharge, evaporation and storage change as the model reports them, and a repeated run, with or "
     "without giving the forcing again, gives identical results.",
     ["configurations", "histories"],
     "All option combinations of the four shipped models with all relevant land cover lists; weather histories containing every sequence of "
     "three of six kinds of day.",
     "The tests run a handful of configurations, mostly default ones, and check few balances.",
     ["python/src/hydrobricks/models/model.py", "python/src/hydrobricks/parameters.py", "python/src/hydrobricks/forcing.py",
      "python/src/hydrobricks/hydro_units.py", "python/src/hydrobricks/models/hbv.py", "core/src/base/ModelHydro.cpp",
      "core/src/base/Logger.cpp", "core/src/base/Processor.cpp"],
     [("set up and run", "Model.setup, Model.run"), ("totals", "Model.get_total_*, Logger::GetTotal*"), ("units", "HydroUnits.load_from_csv")],
     "precipitation recomputed from the station series, elevations and areas; ice from the recorded melt or ice content",
     "~3,560 configurations (every option combination; the other solvers on an eighth of them) x 216 days holding every 3-day weather sequence",
     "the full option product and all solvers (~27,000 configurations)", MC, PYNOTE, flavour="py")

prop("M03", "Parameter sets keep names, values, ranges and constraints consistent",
     "After any sequence of definitions and changes, every name and alias of a parameter finds that parameter whatever its case, no value "
     "outside its range, unknown name, ambiguous alias, inconsistent range or unknown constraint operator is ever taken over, and range, "
     "constraint and completeness checks tell the truth. Random values lie in their ranges, satisfy the constraints and touch nothing else; "
     "transformed values map back and forth; saved parameter files hold exactly the values.",
     ["histories", "inputs"],
     "All sequences of up to three operations of forty-six kinds (scalar, list, data and transformed parameters, ranges, aliases, "
     "constraints, random draws, files); every sequence of random draws among low, middle and high.",
     "The tests call each operation once or twice, nearly always on a fresh parameter set.",
     ["python/src/hydrobricks/parameters.py", "python/src/hydrobricks/_utils.py"],
     [("definitions", "ParameterSet.define_parameter, add_data_parameter, add_aliases, change_range"),
      ("values", "ParameterSet.set_values, set_random_values, _check_value_range"), ("constraints", "ParameterSet.constraints_satisfied")],
     "an independent reference of the parameter set, compared through all names after every sequence", "~21,800 sequences",
     "~320,000 sequences (all of length three, and those of length four of the main operations)", MC, PYNOTE, flavour="py")

prop("M04", "Station data become unit forcing exactly as the operations say",
     "The value of every variable in every unit and on every date is the documented function of the station series, the corrections, the "
     "elevation gradients (constant, monthly, or with a threshold), the evapotranspiration function and the current parameter values, never "
     "negative where that makes no sense, however often and in whatever order data are loaded, parameters changed and operations applied. A "
     "forcing file gives back the same forcing, and unknown, missing or mismatched inputs are refused.",
     ["inputs", "histories", "configurations"],
     "All methods, gradients, corrections, reference elevations and thresholds for all variables and names; all sequences of definitions, "
     "parameter changes and full or partial applications.",
     "The tests apply single operations once; sequences, partial applications and files are hardly tested.",
     ["python/src/hydrobricks/forcing.py", "python/src/hydrobricks/time_series.py", "python/src/hydrobricks/models/model.py"],
     [("operations", "Forcing.apply_operations, _get_changing_variables, _restore_station_data"),
      ("spatialization", "Forcing._apply_spatialization_from_station_data"), ("PET", "Forcing._apply_pet_computation"),
      ("files", "Forcing.save_as, load_from"), ("station files", "TimeSeries1D.load_from_csv")],
     "the documented formulas evaluated independently from the station values, and a record of which parameter values were applied last",
     "~19,400 cases: ~4,600 single definitions, ~11,000 sequences of up to 4 operations, files, station file sequences, PET functions",
     "~120,000 cases: sequences of up to 5 operations", MC, PYNOTE, flavour="py")

prop("M05", "Results read back from a file are the results of the run",
     "A results file read back lists exactly the recorded components, units, land covers and dates of the run and returns for every "
     "component, unit, cover and date the value that the model recorded there; its means and sums over units are the area-weighted ones, "
     "with the land cover areas of each date. What is not recorded, or a unit, cover or date the file does not hold, is refused; "
     "recording selected items gives the same values as recording everything, in every variant of the structure that holds the item.",
     ["configurations", "histories"],
     "Configurations of all shipped models over all land cover lists and names one of which ends like another; runs of several lengths and "
     "first dates, with and without land cover changes; selections of recorded items.",
     "The tests read one file of one model and look at a few shapes.",
     ["python/src/hydrobricks/results.py", "python/src/hydrobricks/models/model.py", "python/src/hydrobricks/models/model_settings.py",
      "python/src/hydrobricks/evaluation/base.py", "core/src/base/Logger.cpp", "core/src/base/ResultWriter.cpp"],
     [("reading", "Results"), ("selected recordings", "Model.add_recordings, ModelSettings"), ("writing", "Model.dump_outputs, ResultWriter")],
     "the values recorded in memory by the same run, and means recomputed from them with the areas of each date",
     "~220 runs, every component x unit x date of each read back", "all lengths and first dates", MC, PYNOTE, flavour="py")

prop("M06", "Periods, spin-up, observations and scores refer to the dates they name",
     "A period contains exactly its dates, a spin-up given in days or years has the length that the calendar says, and a run with spin-up "
     "equals the run over the spin-up days followed by the period. Observations and time series hold exactly the values of the dates "
     "asked for, and every score (over the run, after a warm-up, over a period, per period of a split sample, or of the bootstrap "
     "reference) is the published formula over exactly the pairs of those dates; what does not match is refused.",
     ["inputs", "configurations", "histories"],
     "All pairs of dates around leap days and year ends in every accepted form; all combinations of calibration, validation and simulation "
     "periods on a grid; all start and end dates around observation files with gaps; all sub-periods and warm-ups of short runs.",
     "The tests use one period of each kind and one observation file.",
     ["python/src/hydrobricks/periods.py", "python/src/hydrobricks/evaluation/discharge.py", "python/src/hydrobricks/evaluation/metrics.py",
      "python/src/hydrobricks/time_series.py", "python/src/hydrobricks/models/model.py", "core/src/base/TimeMachine.cpp"],
     [("periods", "Period, Periods, spinup_to_days"), ("scores", "Model.eval, evaluate_periods, metrics"),
      ("bootstrap", "DischargeObservations.compute_reference_metric"), ("set-up", "Model.setup")],
     "the calendar of the standard library, and the published score formulas in plain Python",
     "~3,300 cases", "further numbers of years in the bootstrap", MC, PYNOTE, flavour="py")

prop("M07", "A calibration scores each parameter set by what the model does with it",
     "Every parameter set that a calibration evaluates lies in its ranges and satisfies the constraints, and its score is the chosen "
     "objective, weighted or vector combination and sign included, of the discharge and auxiliary signals that a fresh model gives with "
     "exactly these values, over exactly the evaluated dates, whatever was evaluated before and in which process. Sets that are rejected or "
     "fail are the worst possible and end nothing; the reported values can be run again with the reported score, and what is written down for a set is its own run.",
     ["histories", "configurations", "inputs"],
     "All sequences of draws among valid, constraint-violating and out-of-range sets, for each way of building the calibration, each kind of "
     "algorithm and each model; all pairs of eleven kinds of auxiliary signals with all combinations of their options; all alignments of "
     "the observations.",
     "The tests run one calibration of each kind with random draws and look at signs and shapes.",
     ["python/src/hydrobricks/trainer.py", "python/src/hydrobricks/parameters.py", "python/src/hydrobricks/evaluation/metrics.py",
      "python/src/hydrobricks/evaluation/base.py", "python/src/hydrobricks/forcing.py", "python/src/hydrobricks/models/model.py"],
     [("evaluation", "SpotpySetup.parameters, simulation, evaluation, objectivefunction"), ("copies", "SpotpySetup._ensure_built, __getstate__"),
      ("reports", "calibrate, get_results, get_best")],
     "fresh models run with the real values, published score formulas in plain Python, transforms inverted by hand; a scripted sampler",
     "~2,800 cases, ~5,000 calibrations and evaluations", "longer draw sequences for every way of building", MC, PYNOTE, flavour="py")

prop("M08", "The units of a model are those of the tables that describe them",
     "Whatever the order of the rows and columns, the identifiers, the spelling of the units of measure and the way covers and areas are "
     "given, the spatial units handed to a model have the areas, cover shares, elevations, properties and connections of the table, ordered "
     "and counted as documented. Values are converted exactly, nothing given by the caller is modified, a saved description says the same, and "
     "tables that are contradictory or incomplete are refused.",
     ["inputs", "programs", "configurations"],
     "All orders of the elevations, orders of the columns, documented spellings of the units, ways of giving covers, operation sequences "
     "on the units, and connection graphs of up to four units.",
     "The tests load a few fixed tables whose rows are in order and whose units are spelled one way.",
     ["python/src/hydrobricks/hydro_units.py", "python/src/hydrobricks/_units.py", "core/src/base/SettingsBasin.cpp"],
     [("tables", "HydroUnits.load_from_csv, add_property, _set_units_data"), ("covers", "HydroUnits._check_land_cover_areas_match, initialize_from_land_cover_change"),
      ("connections", "HydroUnits.set_connectivity"), ("units of measure", "_units.get_unit_enum, convert_unit")],
     "the numbers the table was written from; settings filled by hand, unit by unit; what the core was told, recorded",
     "~8,000 cases, ~1M checks", "all spellings with each other, operation sequences one longer, all four-unit graphs", MC, PYNOTE, flavour="py")

prop("M09", "The actions of a model do what their files say, on the day they say it",
     "The cover changes, glacier tables and dates that an action was given by file or by object are those that the run applies: on each day, "
     "the extents are the latest ones the files give, for all covers that change on the same date and in any order, and the glacier tables, units and "
     "month are unaltered. A run with actions read from files is the run with the same actions told one by one; data that "
     "identify no unit, date or month are refused, and an action lasts as long as the model that uses it.",
     ["inputs", "histories", "configurations"],
     "All stories of up to five dates of a unit's cover (shrinks, stays, grows, is zero, is missing, comes back), file layouts, all months "
     "and days, and all short histories run with two models.",
     "The tests load four fixed files and count their changes.",
     ["python/src/hydrobricks/actions/*.py", "python/src/hydrobricks/models/model.py", "core/src/actions/*.cpp"],
     [("changes", "ActionLandCoverChange.load_from_csv, _remove_rows_with_no_changes"), ("tables", "ActionGlacierEvolution*.load_from*"),
      ("lifetime", "Model.add_action"), ("order within a date", "ActionLandCoverChange::Apply")],
     "the story the file was written from; the extents recorded by the run; runs with the same actions added to the core by hand",
     "~12,000 cases, ~590,000 checks", "stories of six dates, all histories of three dates with four starting days", MC, PYNOTE, flavour="py")

prop("M10", "Glacier lookup tables lose the ice in equal steps, where the method says",
     "The tables computed for a glacier start with the areas and volumes of the ice given for each unit, lose the same share of the total ice at "
     "every step, and end with no ice; every step takes the ice from the elevation bands, and narrows them, as the published method says. The "
     "tables are finite and never negative, depend neither on the order of the bands nor on how often they are computed, and the tables saved "
     "to files are the ones the actions read. The glacier extents that initialize the units are those of the tables, and ambiguous or "
     "incomplete profiles are refused.",
     ["inputs", "configurations"],
     "All glaciers of up to four bands over seven kinds of band (bare, thin, thick, large, small, iceless), twelve larger ones x width rules x "
     "splits between units x orders of the profile x numbers of steps; grids of up to twelve pixels of three thicknesses; surveys of change.",
     "The tests compare one glacier with a stored table.",
     ["python/src/hydrobricks/preprocessing/glacier_evolution_delta_h.py", "python/src/hydrobricks/preprocessing/glacier_evolution_area_scaling.py",
      "python/src/hydrobricks/preprocessing/glacier_cover.py", "python/src/hydrobricks/actions/*.py"],
     [("bands", "GlacierEvolutionDeltaH.compute_lookup_table"), ("pixels", "_update_glacier_thickness, GlacierEvolutionAreaScaling"),
      ("survey", "compute_ice_thickness_change"), ("extents", "initialize_glacier_cover")],
     "the method of Huss et al. (2010) and Seibert et al. (2018) written a second time, on bands and on pixels",
     "9,643 cases, 1.6 million checks", "all glaciers of up to four bands and many of five, up to 200 steps, more pixel grids", MC, PYNOTE, flavour="py")

prop("M11", "A project file stands for the steps it describes, and is refused if wrong",
     "A project described in a file gives the model, forcing, parameters, periods, observations and results of the same steps written "
     "one by one, wherever the file is, however its paths, dates and entries are written, and whichever of its periods is set up. Anything missing, unknown, "
     "misspelt, of the wrong kind or contradictory is refused before the run, by a message that names every problem and its place. The files "
     "written by the wizard are such projects, with exactly the answers given, and the commands print and write what the project computes.",
     ["configurations", "inputs", "programs"],
     "All combinations of models, ways to tell the forcing, period declarations, spin-ups, date formats, awkward names and ways to load; every "
     "entry of four projects replaced by sixteen wrong values, removed and misspelt, all pairs of 18 problems; all answer scripts of the wizard "
     "over models, files, formats and folders.",
     "The tests load one valid project, a dozen wrong ones and one answer script.",
     ["python/src/hydrobricks/project.py", "python/src/hydrobricks/cli.py", "python/src/hydrobricks/periods.py", "python/src/hydrobricks/models/custom.py"],
     [("building", "load_project, _build_project, Project.setup"), ("validation", "_validate_*, _check_keys, _raise_if_errors"),
      ("wizard", "_cmd_init, _project_yaml, _yaml_str"), ("commands", "_cmd_validate, _cmd_run")],
     "the same steps written with the step-by-step API; the kind each entry has to be of; the answers typed",
     "~1,230 cases, ~24,000 checks", "all combinations with all seven models", MC, PYNOTE, flavour="py")

prop("M12", "Observed snow and ice are compared with the land, days and files they tell of",
     "The simulated glacier mass balance and snow cover set against an observation are those of the observed unit or band of elevation, land covers "
     "and days: areas weighted by the glacier or cover they stand on, as it is at the time, at whatever time of the day it was observed. Observations "
     "read from tables, glacier bulletins, gridded series or satellite tiles are the values of these files within the asked period, units, bands and "
     "limits, with what cannot be read refused or told. A cache never changes what is loaded, whatever was loaded before.",
     ["inputs", "configurations", "histories"],
     "All pairs of days and bands for eight models, glacier layouts and weather words; all words of table rows up to a length; rasters in which the "
     "pixels of each unit take every combination of values; every ordered pair of requests that differ in one thing against one cache.",
     "The tests compare hand-made arrays, one file of each format and one repeated request; the raster tests are skipped without rasterio.",
     ["python/src/hydrobricks/evaluation/glacier_mass_balance.py", "python/src/hydrobricks/evaluation/snow_cover.py",
      "python/src/hydrobricks/evaluation/base.py"],
     [("mass balance", "GlacierMassBalanceObservations.simulated, from_csv, from_glamos"),
      ("snow cover", "SnowCoverObservations.simulated, from_csv, from_netcdf, from_modis, _aggregate_stack, _aggregate_modis"), ("cache", "_cache_key, _cache_lookup")],
     "catchments that are nothing but the glacier; the sums of the values written; loading without a cache",
     "~13,800 cases, ~440,000 checks (rasters through a nearest-pixel stand-in on one projection)", "longer words, all formats for all maps, ratios and limits", MC, PYNOTE, flavour="py")

prop("M13", "A model structure told as data is the model it describes, or is refused",
     "A model declared by its bricks, processes, targets and parameters gives, however and in whatever order it is told, the results of the same "
     "structure built piece by piece, with every drop of water accounted for, and its names never matter. Its parameters, constraints, recordings, graph "
     "and exports are those of what was declared. Anything misspelt, missing, of the wrong kind, contradictory, or that the processes cannot compute is "
     "refused before the run with a message that names every problem and its place.",
     ["programs", "configurations", "inputs"],
     "All small structures of stores, processes, targets, solvers and options; the declarations of the built-in models in six ways of telling; all "
     "orders of declaration; every entry of a declaration replaced, misspelt or removed; every kind of process on every kind of brick and target.",
     "The tests declare two or three structures and check names and one run.",
     ["python/src/hydrobricks/models/custom.py", "python/src/hydrobricks/structure.py", "python/src/hydrobricks/parameters.py",
      "python/src/hydrobricks/models/model.py", "core/src/processes/*.cpp"],
     [("declaration", "_load_structure_spec, _validate_structure_spec"), ("order", "_order_bricks"), ("parameters", "ParameterSet.generate_parameters"),
      ("graph", "StructureGraph, Model.get_structure"), ("validity", "Process*::IsValid, ModelHydro::IsValid")],
     "the same structure told to the core by hand; the built-in model; the balance of what fell, left and stayed",
     "~7,800 cases, ~370,000 checks", "more orders of declaration, all small structures with all options", MC, PYNOTE, flavour="py")

prop("M14", "The hydro units cut out of a terrain are its cells, each in one unit",
     "Discretizing a catchment by elevation, slope, aspect, radiation or sub-catchments puts every cell within the asked bands in exactly one unit with the "
     "cells of the same classes, whatever the raster, the units made before or the files in between. The areas, mean elevations, slopes, aspects, "
     "coordinates, limits and land cover fractions are those of these cells, and the water of each unit goes to the units its cells drain to, in "
     "the shares they drain. Unknown criteria, methods, missing data, uncovered cells or bands without a cell are refused.",
     ["inputs", "configurations", "programs"],
     "All grids of up to six cells over an alphabet of elevations x ways to cut them x kinds of raster; all sets and orders of five criteria on eight terrains; "
     "every pair of discretizations one after the other; every flow map of two by two cells and one by four on the layouts of units; words of land cover "
     "classes x mappings x ways to tell them.",
     "The tests compare one catchment with stored tables and need libraries for geographic data.",
     ["python/src/hydrobricks/catchment.py", "python/src/hydrobricks/preprocessing/catchment_discretization.py", "python/src/hydrobricks/hydro_units.py",
      "python/src/hydrobricks/preprocessing/catchment_connectivity.py", "python/src/hydrobricks/preprocessing/catchment_land_cover.py",
      "python/src/hydrobricks/preprocessing/catchment_topography.py"],
     [("units", "CatchmentDiscretization.discretize_by"), ("attributes", "Catchment.get_hydro_units_attributes, _extract_raster, mask_dem"),
      ("connectivity", "CatchmentConnectivity.calculate"), ("land cover", "CatchmentLandCover.extract_from_raster, extract_from_shapefile")],
     "each cell followed on its own: its class, its unit, where its water leaves the unit",
     "~12,400 cases, ~1.5 million checks", "more elevations, all flow maps under all options, more words of land cover", MC, PYNOTE, flavour="py")

prop("M15", "Potential radiation follows the sun, the terrain and the shadows it casts",
     "The potential solar radiation of every cell and day is the clear-sky radiation of the sun's course over the catchment at its latitude, summed over the "
     "day, on a surface of the cell's slope and aspect, at its elevation, polar days and nights included. A cell receives none when the sun is down, behind its own slope, or "
     "behind terrain that hides the sun, and only then. The annual mean is that of the days asked, files give back what was computed, and unusable options are refused.",
     ["inputs", "configurations"],
     "All latitudes and days over the whole turn of the sun on a grid of angles; all slopes, aspects and directions of the sun on a grid; all small grids of "
     "three levels under the sun of eight directions and several heights, and walls under oblique suns; years on small terrains x options.",
     "The tests compare means of one catchment, which needs libraries for geographic data, with stored values.",
     ["python/src/hydrobricks/preprocessing/potential_solar_radiation.py", "python/src/hydrobricks/catchment.py"],
     [("sun", "PotentialSolarRadiation._calculate_solar_declination, _zenith, _azimuth"), ("incidence", "_calculate_angle_of_incidence"),
      ("shadows", "calculate_cast_shadows"), ("year", "compute, load/upscale of the annual mean")],
     "vectors of the sun and of the slopes; rays followed from each cell toward the sun; Hock's equation written anew",
     "~810 cases, ~480,000 checks", "finer angles, all days, more grids", MC, PYNOTE, flavour="py")

prop("M16", "Gridded data give each unit the mean of the cells over it, at its height",
     "The forcing of a unit taken from gridded data is, for every date, the mean of the cells over its pixels weighted by what they share, whatever the direction, "
     "names, reference system, files or extent of the grid; cells without data do not count, and data per day of the year go to each date. Where asked, values follow the "
     "relief: data that vary with height take the value of the unit's own height, nothing turns negative that cannot, "
     "the last declaration of a variable counts once, and unusable sources, dates or options are refused, never filled with zeros.",
     ["inputs", "configurations", "programs"],
     "All rasters of two by three pixels of two units on the grid in all positions and directions; larger layouts x ways to store the grid; all patterns of missing "
     "cells; numbers of days x sizes of blocks; days of the year across leap years; all reliefs of three by three cells from four steps; sequences of declarations.",
     "The tests only check the shape of the results, and need libraries for geographic data.",
     ["python/src/hydrobricks/time_series.py", "python/src/hydrobricks/forcing.py"],
     [("regridding", "TimeSeries2D.regrid_from_netcdf"), ("relief", "_extract_time_step_data_weights_with_gradient, _fill_nan_gradients, _mean_xy_gradient"),
      ("declaration", "Forcing.spatialize_from_gridded_data")],
     "every pixel followed to its cell on its own; data made as a known function of the height",
     "~30,600 cases, ~480,000 checks", "more layouts, sizes of blocks and reliefs", MC, PYNOTE, flavour="py")

prop("M17", "A project with a terrain or gridded weather is the steps it stands for",
     "A project that cuts its units out of a terrain, or takes any of its variables from gridded data, gives the units, weather, parameters and discharge of the steps it stands for, "
     "however its paths, names and sources are told; each variable has one source, under whichever of its names. "
     "What a section needs and does not find, and any value of the wrong kind, is refused on loading with the place it stands at; what the wizard is told is a project that runs.",
     ["configurations", "inputs"],
     "All ways to have the units x sources of precipitation, temperature and evapotranspiration x gradients; models x layouts of the grids; ways to tell the project; "
     "other names of the variables; every entry of the sections with every wrong value, missing and misspelt; all paths of the wizard through terrain and grids.",
     "The tests of these sections need libraries for geographic data and only look at whether a project loads.",
     ["python/src/hydrobricks/project.py", "python/src/hydrobricks/cli.py"],
     [("terrain and grids of a project", "_validate_discretization, _validate_gridded_forcing, _build_project"), ("wizard", "_ask_gridded_source, _sniff_netcdf, _hydro_units_lines")],
     "the same steps one by one through the interface; the units and cells worked out from the terrain on their own",
     "~3,000 cases, ~105,000 checks", "all combinations of sources, four models in the wizard", MC, PYNOTE, flavour="py")

prop("M18", "Glaciers drawn on a map reach the units and the run with the area they cover",
     "The glaciers outlined at some dates, cut to the catchment, give every unit at each of these dates the area they cover in it, exactly or by whole cells as asked, told apart by debris when asked, "
     "the remainder being left to the soil; in between the area follows the line at every new year, and a run has these extents on these days. "
     "The first extent taken from outlines or from an ice thickness covers the units alike and leaves fractions that sum to one; what cannot be done is refused and changes nothing.",
     ["inputs", "configurations", "histories"],
     "All drawings of a row of cells in ninths x histories of three extents x dates x ways of drawing, outlines of the catchment, reference systems, methods, debris, yearly steps; levels of the terrain around the sea; "
     "covers of the catchment; runs across the dates.",
     "The tests look at the totals of one catchment and need libraries for geographic data.",
     ["python/src/hydrobricks/actions/action_land_cover_change.py", "python/src/hydrobricks/preprocessing/glacier_cover.py", "python/src/hydrobricks/hydro_units.py", "core/src/actions/ActionLandCoverChange.cpp"],
     [("histories of extents", "create_action_for_glaciers, _extract_glacier_cover_change, _interpolate_yearly"), ("first extent", "initialize_glacier_cover_from_extent, initialize_from_land_cover_change"),
      ("extents in a run", "ActionLandCoverChange::Apply")],
     "ninths of cells counted on the lattice they are drawn on; a line between two dates; frames, changes told to the core and fractions recorded by a run",
     "~8,000 cases, ~430,000 checks", "longer lists of drawings, all combinations of ways to tell them", MC, PYNOTE, flavour="py")

prop("M19", "A model asks for exactly the parameters of its processes under published names",
     "For every combination of options and land covers of the shipped models, each process of each variant has each of its parameters in the generated set exactly once and nothing else is there, with the documented unit, range, "
     "default and need. Every published name, in any case, sets that parameter and no other, limits can be reached and not passed, and the set is complete exactly when every needed value is given. "
     "It is in order exactly when every documented order between parameters holds, and optimizers see the documented scale.",
     ["configurations", "inputs", "programs"],
     "All combinations of model, soil storages, runoff, melt, ice formation, redistribution, sublimation, rain and snow limits, retention, shared soils, interception and land covers.",
     "The tests list the parameters of a few configurations; a parameter that no process receives, or a name that finds nothing, shows only in others.",
     ["python/src/hydrobricks/parameters.py", "python/src/hydrobricks/models", "python/src/hydrobricks/modules/glacier.py"],
     [("generated parameters", "ParameterSet.generate_parameters and its parts, PROCESS_PARAM_SPECS"), ("names, orders, ranges and scales", "_define_parameter_aliases, _define_parameter_constraints, _define_parameter_transforms of the models"),
      ("what the model receives", "Model._set_parameter_values, SettingsModel::SetParameterValue")],
     "an own table of the parameters of every kind of process, laid over the structure the core was given; documented names and orders", "3,520 configurations, ~1.5 million checks",
     "11,195 configurations, every name and limit tried in each", MC, PYNOTE, flavour="py")


