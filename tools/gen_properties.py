"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
L = "src/libecalc/"
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Unit conversions are physical, mutually inverse, or refused",
 "Every supported unit conversion multiplies by the physically correct factor (plus offset for temperatures), converting there and back returns the original value, and lists/arrays are converted element by element like scalars. A conversion that is not supported is refused with an error rather than returning the number unchanged. The volume unit of a rate and the rate unit of a volume are each other's counterpart.",
 ["inputs"], "all unit pairs and all numeric values",
 "The tests convert a handful of values for a handful of pairs; a wrong factor or a swapped pair in another entry of the table is never executed.",
 [L+"common/units.py"],
 [("conversion registry", L+"common/units.py:_conversion_registry"), ("Unit.to", L+"common/units.py:Unit.to"), ("rate/volume unit tables", L+"common/units.py:Unit.rate_to_volume, volume_to_rate")])

prop("C02", "Periods are half-open and tile time without gaps or overlaps",
 "A period contains its start but not its end; the intersection of two periods is exactly the time they share and is empty when they only touch. Periods built from a list of dates follow each other without gap or overlap, cover exactly the requested span, and selecting or resampling periods keeps exactly those that fall in the requested span. A model that varies over time resolves, for every period, to the definition that is valid in that period and never to a definition outside its validity.",
 ["inputs"], "all date lists, frequencies, target periods and temporal models",
 "Tests use a few hand-picked, mostly yearly, dates; boundary handling has to be right for every alignment of start and end dates.",
 [L+"common/time_utils.py", L+"common/temporal_model.py", L+"common/variables.py"],
 [("Period membership/intersection", L+"common/time_utils.py:Period"), ("Periods construction and lookup", L+"common/time_utils.py:Periods"), ("resampling of periods", L+"common/time_utils.py:resample_periods"), ("TemporalModel", L+"common/temporal_model.py:TemporalModel")])

prop("C03", "Regularity is applied exactly once between stream-day and calendar-day",
 "A calendar-day rate equals the stream-day rate multiplied by the regularity of the same period, and the stream-day rate is the inverse; converting to the type a rate already has changes nothing. The label saying which kind of rate a series holds always agrees with the values, so regularity is never applied twice nor skipped.",
 ["inputs", "histories"], "all rate series, regularities and sequences of conversions",
 "Tests mostly use regularity 1 or convert once; a double application or a stale label only shows for regularity below 1 and particular conversion sequences.",
 [L+"common/utils/rates.py", L+"domain/regularity.py"],
 [("TimeSeriesRate.to_calendar_day / to_stream_day", L+"common/utils/rates.py:TimeSeriesRate"), ("TimeSeriesStreamDayRate / TimeSeriesCalendarDayRate", L+"common/utils/rates.py"), ("regularity", L+"domain/regularity.py:Regularity")])

prop("C04", "Volumes, cumulatives and resampled series stay consistent with rates",
 "The volume of a period is the calendar-day rate times the number of days in that period; the cumulative at the end of a period is the sum of all volumes up to and including it. Aggregating to another reporting frequency preserves total volume over the reported span, rates become the volume-weighted average of the periods they replace, and intensive values (booleans, factors) are not summed.",
 ["inputs"], "all series, all periods of unequal length, all reporting frequencies",
 "Tests check a few series with regular periods; unequal periods, partial first/last periods and other frequencies change the arithmetic.",
 [L+"common/utils/rates.py"],
 [("to_volumes / cumulative / from_volumes", L+"common/utils/rates.py:TimeSeriesRate, TimeSeriesVolumes"), ("resample", L+"common/utils/rates.py:*.resample")])

prop("C05", "Combining time series never mixes units, kinds or periods and never mutates",
 "Adding, subtracting, merging or comparing time series combines values of the same period only and is refused when units, kinds of rate or periods disagree. The result carries the unit, the kind of rate and the regularity that belong to its values. Selecting a period or an index returns the values, periods and regularity belonging to that selection, and no operation changes the series it was called on.",
 ["inputs", "histories"], "all pairs of series and all operation sequences",
 "Tests combine aligned series of equal unit; misuse and aliasing only show in combinations nobody wrote down.",
 [L+"common/utils/rates.py"],
 [("TimeSeries arithmetic", L+"common/utils/rates.py:TimeSeries*.__add__, __sub__, __mul__, __truediv__, merge, extend"), ("selection", L+"common/utils/rates.py:TimeSeries*.for_period, __getitem__")])

prop("C06", "Expressions evaluate as written: operators, precedence, references",
 "An expression evaluates with the documented operators and conventional precedence and left-to-right association, element by element over the periods, with undefined numeric results replaced by zero. Every referenced series or variable contributes exactly its own values, and a reference that does not exist, an operator that is not supported or an incomplete expression is reported as an error instead of being ignored. Input text is never executed as program code.",
 ["inputs", "programs"], "all expressions and all variable values",
 "Tests evaluate a few dozen expressions out of an unbounded language.",
 [L+"expression/expression.py", L+"expression/expression_evaluator.py", L+"expression/expression_tree.py"],
 [("operator table", L+"expression/expression_evaluator.py:Operators"), ("tokenising and precedence", L+"expression/expression_evaluator.py, expression_tree.py"), ("evaluation", L+"expression/expression.py:Expression.evaluate")])

prop("C07", "Time-series input maps to the model's periods by the declared interpolation",
 "Each value read from a time-series resource belongs to the date on its row regardless of row order. Between dates the declared interpolation is used (last known value, linear, or next value), before the first date the value is zero or an error is reported, and after the last date it is held only when extrapolation is declared, otherwise zero. Variables defined over dates take, in each period, the definition valid then.",
 ["inputs", "configurations"], "all resources, dates, interpolation settings and global time vectors",
 "Tests contain few resources, nearly all sorted and aligned with the global time vector.",
 [L+"presentation/yaml/domain/time_series.py", L+"presentation/yaml/domain/time_series_resource.py", L+"presentation/yaml/domain/time_series_collection.py", L+"presentation/yaml/mappers/variables_mapper/variables_mapper.py", L+"presentation/yaml/mappers/variables_mapper/get_global_time_vector.py"],
 [("TimeSeries.get_values/fit", L+"presentation/yaml/domain/time_series.py"), ("resource parsing and sorting", L+"presentation/yaml/domain/time_series_resource.py"), ("variable processing", L+"presentation/yaml/mappers/variables_mapper/variables_mapper.py")])

prop("C08", "Infeasible input series are rejected, masked and adjusted consistently",
 "Negative rates, non-positive pressures, non-positive densities and regularities outside zero to one are reported as validation errors before any result is computed. A condition that is not met turns the affected quantities to zero in exactly those periods; power-loss factors increase consumption by the factor one over one minus loss, exactly once.",
 ["inputs"], "all series of rates, pressures, densities, regularities, conditions and power-loss factors",
 "Tests use a few short series; the guard must hold for each element of each series, in every consumer type.",
 [L+"domain/time_series_flow_rate.py", L+"domain/time_series_pressure.py", L+"presentation/yaml/domain/expression_time_series_flow_rate.py", L+"presentation/yaml/domain/expression_time_series_pressure.py", L+"presentation/yaml/domain/expression_time_series_power_loss_factor.py", L+"domain/regularity.py"],
 [("validating expression series", L+"presentation/yaml/domain/expression_time_series_*.py"), ("regularity validation", L+"domain/regularity.py")])

prop("C09", "Emissions equal fuel (or declared venting) times factor, none lost",
 "For every fuel and every emission declared on it, the emission rate in a period is the fuel rate of that period times that emission's factor, converted once from kilogram to tonne per day. A change of fuel over time applies each fuel's emissions only in its own periods. Venting emissions are the declared rate in its declared unit and kind of rate, or the oil rate times the emission factor, and every declared emission is reported under its own name.",
 ["inputs", "configurations"], "all fuels, emissions, factors and periods",
 "Tests have one or two fuels with one emission; a lost second emission or a wrong factor over time is not executed.",
 [L+"domain/energy/emitter.py", L+"domain/infrastructure/energy_components/fuel_model/fuel_model.py", L+"domain/infrastructure/emitters/venting_emitter.py"],
 [("fuel emissions", L+"domain/infrastructure/energy_components/fuel_model/fuel_model.py:FuelModel.evaluate_emissions"), ("venting emitters", L+"domain/infrastructure/emitters/venting_emitter.py"), ("venting emission types", L+"domain/infrastructure/emitters/venting_emitter.py")])

prop("C10", "Generator sets deliver the sum of consumer power and burn matching fuel",
 "The power a generator set must deliver in a period is the sum over all of its connected electricity consumers in that period; the fuel rate is the electricity-to-fuel relation evaluated at that power, zero power gives zero fuel, and power beyond the tabulated maximum is reported as not valid instead of being silently clipped. Power from shore adds the cable loss on top of the delivered power exactly once, and the reported margin is capacity minus required power.",
 ["inputs", "configurations"], "all sets of consumers, loads, generator tables and temporal changes",
 "Tests use one or two consumers and loads inside the table.",
 [L+"domain/infrastructure/energy_components/generator_set/generator_set_component.py", L+"domain/infrastructure/energy_components/generator_set/__init__.py"],
 [("generator set evaluation", L+"domain/infrastructure/energy_components/generator_set/generator_set_component.py:GeneratorSetEnergyComponent"), ("generator model", L+"domain/infrastructure/energy_components/generator_set")])

prop("C11", "Consumer systems conserve rate and pick the first valid operating setting",
 "When a consumer cannot take its rate the excess, and only the excess, moves to the consumer its crossover points to, so that the total rate of the system is unchanged. In each period the first operational setting that is valid is used, and if none is valid the last one is; reported power and validity of the system are then exactly those of the chosen setting, summed over all consumers.",
 ["inputs", "configurations"], "all crossover topologies, rates, capacities and settings per period",
 "Tests use two or three consumers with simple crossovers.",
 [L+"domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py", L+"domain/infrastructure/energy_components/legacy_consumer/system/utils.py", L+"domain/infrastructure/energy_components/legacy_consumer/system/results.py", L+"common/priority_optimizer.py"],
 [("crossover", L+"domain/infrastructure/energy_components/legacy_consumer/system/utils.py"), ("setting selection", L+"domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py")])

prop("C12", "Reported totals are the sum of their parts and every field is its namesake",
 "Installation and asset totals for power, fuel, energy usage, hydrocarbon export and each emission equal the sum over all components below them, once each, in the reported unit and as calendar-day values where stated. A cumulative is the cumulative of the rate reported beside it. Every quantity in the result (rates, inlet/outlet and before/after choke pressures, densities, powers, validity) carries the value and unit of the quantity of the same name computed by the model.",
 ["inputs", "configurations"], "all models: any number and type of components, any values",
 "Snapshot tests cover a few models; values that happen to be equal or zero there (inlet and outlet, requested and actual) hide swapped or missing fields.",
 [L+"presentation/json_result/mapper.py", L+"presentation/json_result/aggregators.py", L+"core/result/results.py"],
 [("aggregation", L+"presentation/json_result/mapper.py, aggregators.py"), ("component mapping", L+"presentation/json_result/mapper.py:ModelResultHelper, map_*")])

prop("C13", "Export reports sum exactly the matching components, in the reported unit",
 "Every column of a tabular export is the sum over exactly the components that match the column's fuel, consumer, emission and producer criteria, an omitted criterion excluding nothing. Volumes come from calendar-day rates over the part of the period in which the component had that category, are converted once to the column's unit, resampled to the reporting frequency, and periods without data are zero. Maximum-usage columns report the maximum and not the sum.",
 ["inputs", "configurations"], "all installations, category histories and report configurations",
 "Export tests use a handful of installations where most categories are present only once.",
 [L+"presentation/exporter/queries.py", L+"presentation/exporter/infrastructure.py", L+"presentation/exporter/appliers.py"],
 [("queries", L+"presentation/exporter/queries.py"), ("attribute producers", L+"presentation/exporter/infrastructure.py"), ("modifiers", L+"presentation/exporter/appliers.py")])

prop("C14", "Emission intensity is emitted mass over exported hydrocarbons of equal span",
 "Cumulative intensity in a period is cumulative emission in kilograms divided by the cumulative hydrocarbon export in standard cubic metres (or barrels), and is not a number where nothing was exported. Yearly intensity uses only the amounts of that year.",
 ["inputs"], "all emission and export series",
 "Tests check one or two series without zero export or partial years.",
 ["src/ecalc_cli/emission_intensity.py"],
 [("intensity calculator", "src/ecalc_cli/emission_intensity.py")])

prop("C15", "The command line evaluates validated models and writes what was asked for",
 "A model is validated before it is evaluated, and an invalid model produces an error instead of results. Each requested output, and no other, is written, from the same results, at the requested frequency and precision; rounding for output never alters the results used elsewhere. Every command-line setting, including an explicit zero, takes effect.",
 ["inputs", "configurations"], "all models, option combinations and values",
 "CLI tests run a few option combinations on valid models.",
 ["src/ecalc_cli/commands/run.py", "src/ecalc_cli/io/output.py", L+"common/math/numbers.py", L+"presentation/yaml/model.py"],
 [("run command", "src/ecalc_cli/commands/run.py"), ("writers", "src/ecalc_cli/io/output.py"), ("rounding", L+"common/math/numbers.py")])

prop("C16", "The flash cache is transparent: same answer as without it, bounded, locked",
 "A cached fluid property is returned only for the same kind of flash, composition, equation of state, pressure and temperature or enthalpy it was computed for, so results do not depend on what was calculated earlier. The cache never exceeds its configured size, evicts the least recently used entry, can be disabled with size zero, and is consistent under concurrent use. Results that fail validation are never cached or returned.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of flash requests",
 "Flash tests need a thermodynamic engine and look at single calls; a key collision shows only after a particular earlier call.",
 ["src/ecalc_neqsim_wrapper/cache_service.py", "src/ecalc_neqsim_wrapper/fluid_service.py"],
 [("LRU cache", "src/ecalc_neqsim_wrapper/cache_service.py"), ("cache keys and lookups", "src/ecalc_neqsim_wrapper/fluid_service.py")])

prop("C17", "Thermodynamic calls keep fluids immutable, components matched, errors typed",
 "Calculating a fluid at new conditions never changes the fluid it started from. Every component of a composition is passed to the engine under its own name with its own amount, all supported equations of state are distinguished, and properties are read in the unit they are reported in. A failure in the engine surfaces as a fluid-calculation error and never as a plausible number, and the engine process is released when the run ends.",
 ["inputs", "histories", "fault_sequences"], "all compositions, conditions, equations of state and engine failures",
 "The engine is not exercised by most tests, and the ones that do use one or two fluids.",
 ["src/ecalc_neqsim_wrapper/thermo.py", "src/ecalc_neqsim_wrapper/mappings.py", "src/ecalc_neqsim_wrapper/java_service.py"],
 [("fluid wrapper", "src/ecalc_neqsim_wrapper/thermo.py"), ("component mapping", "src/ecalc_neqsim_wrapper/mappings.py"), ("engine lifecycle", "src/ecalc_neqsim_wrapper/java_service.py")])

prop("C18", "Fluid stream algebra conserves mass, moles and enthalpy",
 "Standard-volume, actual-volume and mass rates of a stream describe the same flow (24 hours per day and the density at the matching conditions), and converting there and back returns the rate. Mixing streams adds mass rates, balances components by moles and enthalpy by mass, takes the lowest pressure, and refuses to mix different equations of state or no flow. Streams are values: deriving a stream with another rate, pressure or temperature leaves the original unchanged, and negative rates are refused.",
 ["inputs"], "all streams, rates, compositions and numbers of mixed streams",
 "Tests mix two simple streams; conservation must hold for any number of streams and compositions.",
 [L+"process/fluid_stream/fluid_stream.py", L+"process/fluid_stream/fluid_model.py", L+"process/fluid_stream/fluid.py", L+"process/fluid_stream/fluid_service.py"],
 [("stream value objects", L+"process/fluid_stream"), ("mixing", L+"process/fluid_stream")])

prop("C19", "Process units conserve mass and refuse operation outside their limits",
 "Chokes, coolers, pressure drops and compressors pass on exactly the mass they receive; mixers add, splitters and recirculation loops remove, exactly the configured rate. Pressures after a choke or pressure drop are lower by exactly the configured drop, and a unit that is asked to operate outside its limits (too little pressure, more outflow than inflow, below minimum or above maximum flow, liquid in a compressor, no speed set) raises an error instead of producing an outlet stream.",
 ["inputs", "configurations"], "all streams and unit configurations",
 "Nearly all of these tests need the thermodynamic engine, and they sample single operating points.",
 [L+"process/process_units", L+"process/shaft.py", L+"process/process_pipeline/process_pipeline.py"],
 [("process units", L+"process/process_units/*.py"), ("shaft", L+"process/shaft.py")])

prop("C20", "Process solving ends and never turns a failure into a success",
 "Every search in the process solver terminates within a bounded number of steps. Whenever target conditions cannot be met, or a unit or flash fails on the way, the reported solution is marked unsuccessful and names a failure reason; a solution marked successful has no failure in any of its parts. Configurations reported belong to the solution they are reported with.",
 ["inputs", "fault_sequences"], "all targets, pipelines and failure points",
 "Tests sample feasible targets; failures arise at particular probes of the search.",
 [L+"process/process_solver", L+"common/numeric_methods.py"],
 [("solvers", L+"process/process_solver/*.py"), ("search strategies", L+"process/process_solver/search_strategies.py")])

prop("C21", "Distributing a stream over several units conserves the total rate",
 "The rates handed to the receivers of a distribution add up to the rate of the distributed stream; overflow moves only what a receiver cannot handle and only along declared overflow links, which may not form a cycle. Alternative distributions are tried in their declared order and the first feasible one is used; when none is feasible the last one is reported.",
 ["inputs", "configurations"], "all distributions, capacities and overflow graphs",
 "Tests use two receivers in declaration order.",
 [L+"process/stream_distribution"],
 [("distribution strategies", L+"process/stream_distribution/*.py")])

prop("C22", "Pump power and operating point follow from head, rate and chart limits",
 "Pump head is the pressure difference divided by density, power is mass rate times operating head divided by efficiency, and a pump that does not run consumes nothing and is valid. The pump operates at no less than its minimum flow and minimum head, and requests above maximum flow or head are flagged with the matching reason instead of being clipped silently.",
 ["inputs"], "all rates, pressures, densities and pump charts",
 "Tests sample a few operating points on two charts.",
 [L+"process/pump/pump.py", L+"process/pump/pump_process_simulation.py", L+"domain/process/pump/pump.py"],
 [("pump model", L+"domain/process/pump/pump.py, "+L+"process/pump/pump.py")])

prop("C23", "Results are a deterministic function of the input",
 "Two runs on the same input give the same results: no calculation depends on the wall clock, random numbers, environment variables, hash or memory order, or on state left behind by an earlier evaluation. Configuration text and resources are only parsed as data, never executed.",
 ["histories", "schedules", "configurations"], "all runs and run orders",
 "A test sees one run in one process order.",
 ["src/libecalc", "src/ecalc_cli", "src/ecalc_neqsim_wrapper"],
 [("whole program", "src")])

prop("C24", "Compressor trains: speed, power and pressure follow from their charts",
 "A compressor stage's head, efficiency and discharge state follow from its chart and inlet stream; a train's stages are computed in flow order, each from the outlet of the previous, with one common shaft speed. Rates below the minimum flow are recirculated (never silently ignored), rates or heads outside the chart are flagged with the matching failure status and are never reported as a valid operating point, and the power of a train is the sum of its stages' powers. A sampled compressor model reports the tabulated value and marks points outside its hull invalid. A generic or user-defined chart preserves the points it was given, in consistent units and order.",
 ["inputs", "configurations"], "all rates, pressures, charts, train layouts and pressure-control settings",
 "Most of these tests need the thermodynamic engine and sample single operating points of a few trains.",
 [L+"domain/process/compressor", L+"domain/process/entities", L+"domain/process/value_objects/chart", L+"domain/process/core"],
 [("compressor trains", L+"domain/process/compressor/core/train/*.py"), ("charts", L+"domain/process/value_objects/chart"), ("sampled models", L+"domain/process/compressor/core/sampled")])

prop("C25", "The model that is run is the model the configuration describes",
 "Every component, consumer, reference, chart, fluid and facility input of the configuration is mapped to exactly the domain object it describes: each configured field ends up in the parameter of the same meaning and in the right unit, defaults are those documented, dated sections apply from their own date, references resolve to the object of that name and type, and anything that cannot be mapped is reported as an error that names the offending component instead of being dropped.",
 ["inputs", "configurations"], "all configurations",
 "Tests map a handful of example configurations; a swapped field or dropped option of any other component type goes unseen.",
 [L+"presentation/yaml/mappers", L+"presentation/yaml/model.py", L+"presentation/yaml/yaml_entities.py"],
 [("mappers", L+"presentation/yaml/mappers/*.py"), ("model", L+"presentation/yaml/model.py")])

prop("C26", "Configuration is read faithfully and bad configuration is refused",
 "Reading a configuration keeps every key and value as written; includes, dates and resources are resolved relative to the file and the main configuration. Wrong or missing fields, unknown or wrongly typed references, duplicate names, unordered or missing dates and malformed resources are each refused with an error that points to their place in the configuration; a valid configuration is accepted.",
 ["inputs", "configurations"], "all configurations, includes and resource files",
 "Tests sample a few malformed files.",
 [L+"presentation/yaml/yaml_models", L+"presentation/yaml/yaml_types", L+"presentation/yaml/yaml_validation_context.py", L+"presentation/yaml/validation_errors.py"],
 [("YAML reading", L+"presentation/yaml/yaml_models/*.py"), ("YAML types", L+"presentation/yaml/yaml_types"), ("validators", L+"presentation/yaml/validation_errors.py")])

prop("C27", "The flow diagram shows every component once, with its real connections",
 "The flow diagram of a model contains every installation, and inside it every consumer, generator set and emitter exactly once under its own name, type and identity. Fuel flows to exactly the components that burn fuel, emissions from exactly those that emit, and electricity from each generator set to exactly the consumers connected to it; every edge refers to a node of the same diagram and the span is that of the model.",
 ["inputs", "configurations"], "all energy models",
 "Tests compare one snapshot of one example model.",
 [L+"presentation/flow_diagram"],
 [("diagram builder", L+"presentation/flow_diagram/energy_model_flow_diagram.py")])

prop("C28", "The thermodynamic engine runs once, as configured, and is released",
 "At most one engine runs in a process: starting it again returns the running one, mixing two kinds is refused, using it before it is started is refused, and its memory and shutdown settings are valid, can only be changed before it starts and are those it is started with. When the engine is shut down every cache of objects that live in it is emptied first and a later start begins anew; if it is configured to stay alive, leaving the context keeps it running.",
 ["histories", "configurations"], "all orders of configuring, starting, using and stopping the engine",
 "The engine is replaced or kept alive for the whole session in tests.",
 ["src/ecalc_neqsim_wrapper"],
 [("engine service", "src/ecalc_neqsim_wrapper/java_service.py"), ("caches", "src/ecalc_neqsim_wrapper/cache_service.py")])

prop("C29", "Every refusal names the place in the configuration that caused it",
 "An error about the configuration carries the path of keys to the offending element, the line of the file on which that element starts (that of the closest enclosing element when it has none of its own), the file it is in also for included files, the name of the component, and the message of the underlying problem; the text shown to the user contains them. An error that concerns several elements yields one entry for each of them, none is lost, and warnings about one element are never attributed to another.",
 ["inputs", "configurations"], "all invalid configurations, nesting levels and included files",
 "Tests check the wording of a few errors in single-file models.",
 [L+"presentation/yaml/validation_errors.py", L+"presentation/yaml/model_validation_exception.py", L+"presentation/yaml/file_context.py", L+"presentation/yaml/yaml_node.py", L+"presentation/yaml/yaml_models"],
 [("errors", L+"presentation/yaml/validation_errors.py"), ("line tracking", L+"presentation/yaml/yaml_models/pyyaml_yaml_model.py")])

prop("X01", "Process solver results meet target pressure within tolerance",
 "Whenever a solution is reported successful, the outlet pressure it produces is within tolerance of the target.",
 ["inputs"], "all streams, charts and targets",
 "Needs real fluid properties over a continuum of operating points.",
 [L+"process/process_solver"], [("root finding", L+"process/process_solver")])
prop("X02", "Compressor chart interpolation is accurate between measured points",
 "Efficiency and head between measured chart points deviate from the manufacturer's curve by no more than the documented interpolation error.",
 ["inputs"], "all charts and operating points",
 "Continuum of operating points.",
 [L+"domain/process/value_objects/chart"], [("chart interpolation", L+"domain/process/value_objects/chart")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    for fn in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print(p["id"], "missing", fn)
