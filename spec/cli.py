# Reference equations (parsed by the checker, never executed).
import pandas as pd
from datetime import datetime
from ecalc_cli.commands.run import validate_arguments
from ecalc_cli.emission_intensity import EmissionIntensityCalculator
from ecalc_cli.errors import EcalcCLIError
from ecalc_cli.infrastructure.file_resource_service import FileResourceService
from ecalc_cli.io.output import emission_intensity_to_csv, export_tsv, write_flow_diagram, write_json, write_ltp_export, write_output, write_stp_export
from ecalc_cli.logger import CLILogConfigurator, LogLevel
from ecalc_cli.main import version_callback
from ecalc_cli.types import DateFormat
from ecalc_neqsim_wrapper import CacheConfig, NeqsimService
from functools import reduce
from libecalc.common.component_type import ComponentType
from libecalc.common.datetime.utils import DateTimeFormats
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
from libecalc.common.errors.exceptions import EcalcError, EcalcErrorType, InvalidResourceException
from libecalc.common.math.numbers import Numbers
from libecalc.common.run_info import RunInfo
from libecalc.common.time_utils import Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import TimeSeriesBoolean
from libecalc.core.result import CompressorResult
from libecalc.core.result.results import PumpResult
from libecalc.domain.infrastructure.energy_components.asset.asset import Asset
from libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function import ConsumerFunctionResult
from libecalc.domain.installation import Installation
from libecalc.domain.process.core.results import CompressorTrainResult, PumpModelResult
from libecalc.infrastructure.file_utils import OutputFormat, dataframe_to_csv, get_result_output, to_json
from libecalc.presentation.exporter.configs.configs import LTPConfig, STPConfig
from libecalc.presentation.exporter.configs.formatter_config import PeriodFormatterConfig
from libecalc.presentation.exporter.exporter import Exporter
from libecalc.presentation.exporter.formatters.formatter import CSVFormatter
from libecalc.presentation.exporter.handlers.handler import MultiFileHandler
from libecalc.presentation.exporter.infrastructure import ExportableYamlModel
from libecalc.presentation.flow_diagram.energy_model_flow_diagram import EnergyModelFlowDiagram
from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.domain.container_info import ContainerInfo
from libecalc.presentation.yaml.domain.time_series_collections import TimeSeriesCollections
from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
from libecalc.presentation.yaml.file_configuration_service import FileConfigurationService
from libecalc.presentation.yaml.file_context import FileContext, FileMark
from libecalc.presentation.yaml.mappers.component_mapper import EcalcModelMapper
from libecalc.presentation.yaml.mappers.ecalc_event_mapper import EcalcEventMapper
from libecalc.presentation.yaml.mappers.process_simulation_mapper import ProcessSimulationMapper
from libecalc.presentation.yaml.mappers.pump_process_simulation_mapper import PumpProcessSimulationMapper
from libecalc.presentation.yaml.mappers.variables_mapper import map_yaml_to_variables
from libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector import InvalidEndDate, get_global_time_vector
from libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper import InvalidVariablesException
from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
from libecalc.presentation.yaml.model import Context, YamlModel
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException
from libecalc.presentation.yaml.resource_service import InvalidResource
from libecalc.presentation.yaml.validation_errors import Location, ModelValidationError
from libecalc.presentation.yaml.yaml_entities import MemoryResource, ResourceStream
from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel
from libecalc.presentation.yaml.yaml_reference_service import YamlReferenceService
from libecalc.presentation.yaml.yaml_types.components.yaml_asset import YamlAsset
from libecalc.presentation.yaml.yaml_validation_context import YamlModelValidationContextNames


@target("ecalc_cli.commands.run.run", props=["C15"])
def f_run(model_file=typer.Argument(..., help='The Model YAML-file specifying time series inputs, facility inputs and the relationship between energy consumers.'), output_frequency=typer.Option(libecalc.common.time_utils.Frequency.NONE.name, '--output-frequency', '-f', '--outputfrequency', help='Frequency of output. Options are DAY, MONTH, YEAR. If not specified, it will give time steps equal to the union of all input given with INFLUENCE_TIME_VECTOR set to True. Down-sampling the result may lead to loss of data, and rates such as MW may not add up to cumulative values'), csv=typer.Option(True, '--csv/--no-csv', '-c', help='Toggle output of csv data.'), json=typer.Option(False, '--json', help='Toggle output of json output.'), output_folder=typer.Option(None, '--output-folder', '-o', '--outputfolder', help='Outputfolder. Defaults to output/ relative to the yml setup file', show_default=False), name_prefix=typer.Option(None, '--name-prefix', '-n', '--nameprefix', help='Name prefix for output data. Defaults to name of setup file.'), ltp_export=typer.Option(False, '--ltp-export', help='In addition to standard output, a specific Long Term Prognosis (LTP) file will be provided for simple export of LTP relevant data (Tabular Separated Values).'), stp_export=typer.Option(False, '--stp-export', help='In addition to standard output, a specific Short Term Prognosis (STP) file will be provided for simple export of STP relevant data (Tabular Separated Values).'), flow_diagram=typer.Option(False, '--flow-diagram', help='Output the input model formatted to be displayed in a custom flow diagram format in JSON'), detailed_output=typer.Option(False, '--detailed-output', '--detailedoutput', help='Output detailed output. When False you will get basic results such as energy usage, power, time vector.'), date_format_option=typer.Option(DateFormat.ISO_8601.value, '--date-format-option', help='Date format option. 0: "YYYY-MM-DD HH:MM:SS" (Accepted variant of ISO8601), 1: "YYYYMMDD HH:MM:SS" (ISO8601), 2: "DD.MM.YYYY HH:MM:SS". Default 0 (ISO 8601)'), reference_cache_size=typer.Option(None, '--reference-cache-size', help='Max entries in reference fluid cache (note: default covers most use cases). Increase for models with many compositions. Set to 0 to disable.'), flash_cache_size=typer.Option(None, '--flash-cache-size', help='Max entries in flash results cache (note: default covers most use cases). Increase for large models with many flash calculations. Set to 0 to disable.'), use_experimental_neqsim=typer.Option(False, '--use-experimental-neqsim', help='An improved implementation of Neqsim is available, but still experimental. After a short testing period this will be made default and not possible to change.')):
    if output_folder is None:
        output_folder = model_file.parent / 'output'
    if name_prefix is None:
        name_prefix = model_file.stem
    frequency = libecalc.common.time_utils.Frequency[output_frequency.name]
    run_info = RunInfo(version=libecalc.version.current_version(), start=datetime.now())
    validate_arguments(model_file=model_file, output_folder=output_folder)
    if reference_cache_size is not None or flash_cache_size is not None:
        defaults = CacheConfig.default()
        config = CacheConfig(reference_fluid_max_size=reference_cache_size if reference_cache_size is not None else defaults.reference_fluid_max_size, flash_max_size=flash_cache_size if flash_cache_size is not None else defaults.flash_max_size)
        NeqSimFluidService.configure(config)
    with NeqsimService.factory(use_jpype=use_experimental_neqsim).initialize():
        configuration_service = FileConfigurationService(configuration_path=model_file)
        configuration = configuration_service.get_configuration()
        resource_service = FileResourceService(working_directory=model_file.parent, configuration=configuration)
        model = YamlModel(configuration=configuration, resource_service=resource_service).validate_for_run()
        if (flow_diagram or ltp_export) and (model.start is None or model.end is None):
            pass
        if flow_diagram:
            write_flow_diagram(energy_model=model.get_energy_model(), model_period=model.variables.period, output_folder=output_folder, name_prefix=name_prefix)
        model.evaluate_energy_usage()
        run_info.end = datetime.now()
        output_prefix = output_folder / name_prefix
        results_dto = get_asset_result(model)
        if frequency != libecalc.common.time_utils.Frequency.NONE:
            results_resampled = results_dto.resample(frequency)
        else:
            results_resampled = results_dto.model_copy()
        hydrocarbon_export_rate = results_resampled.component_result.hydrocarbon_export_rate
        emissions = results_resampled.component_result.emissions
        emission_intensity_calculator = EmissionIntensityCalculator(hydrocarbon_export_rate=hydrocarbon_export_rate, emissions=emissions, frequency=frequency)
        emission_intensity_results_resampled = emission_intensity_calculator.get_results()
        results_resampled = Numbers.format_results_to_precision(result=results_resampled, precision=6)
        emission_intensity_results_resampled = Numbers.format_results_to_precision(result=emission_intensity_results_resampled, precision=6)
        if csv:
            csv_data = get_result_output(results=results_resampled, output_format=OutputFormat.CSV, simple_output=not detailed_output, date_format_option=int(date_format_option.value))
            write_output(output=csv_data, output_file=output_prefix.with_suffix('.csv'))
            intensity_csv_data = emission_intensity_to_csv(emission_intensity_results_resampled, DateTimeFormats.get_format(int(date_format_option.value)))
            write_output(output=intensity_csv_data, output_file=output_prefix.with_name(f'{output_prefix.stem}_intensity.csv'))
        if json:
            write_json(results=results_resampled, output_folder=output_folder, name_prefix=name_prefix, run_info=run_info, date_format_option=int(date_format_option.value), simple_output=not detailed_output)
            intensity_json_path = output_prefix.with_name(f'{output_prefix.stem}_intensity.json')
            json_intensity_data = to_json(emission_intensity_results_resampled, date_format_option=int(date_format_option.value))
            with open(intensity_json_path, 'w') as f:
                f.write(json_intensity_data)
        if ltp_export:
            write_ltp_export(model=model, output_folder=output_folder, frequency=frequency, name_prefix=name_prefix)
        if stp_export:
            write_stp_export(model=model, output_folder=output_folder, frequency=frequency, name_prefix=name_prefix)


@target("ecalc_cli.commands.run.validate_arguments", props=["C15"])
def f_validate_arguments(model_file, output_folder):
    if not model_file.is_file():
        raise EcalcCLIError(f'Setup file: {model_file.absolute()}: no such file')
    if not output_folder.parent.is_dir():
        raise EcalcCLIError(f'Output path {output_folder} not valid. Please specify an existing path or the name of a new folder in an existing path')
    if not output_folder.is_dir():
        output_folder.mkdir()


@target("ecalc_cli.commands.show.show_yaml", props=["C15"])
def f_show_yaml(model_file=typer.Argument(..., help='YAML file specifying time series inputs, facility inputs and the relationship between energy consumers.'), output_file=typer.Option(None, '--file', help='Write the data to a file with the specified name.')):
    with open(model_file) as f:
        read_model = PyYamlYamlModel.dump_and_load_yaml(ResourceStream(name=f.name, stream=f), base_dir=model_file.parent)
        write_output(read_model, output_file)


@target("ecalc_cli.commands.show.show_schema", props=["C15"])
def f_show_schema(output_file=typer.Option(None, '--file', help='Write the schema to a file with the specified name. If not specified, it will print to stdout.')):
    write_output(json.dumps(YamlAsset.model_json_schema(by_alias=True), indent=2), output_file)


@target("ecalc_cli.io.output.write_output", props=["C15"])
def f_write_output(output, output_file=None):
    if output_file is not None:
        with open(output_file, 'w') as outfile:
            outfile.write(output)
    else:
        sys.stdout.write(output)


@target("ecalc_cli.io.output.write_json", props=["C15"])
def f_write_json(results, output_folder, name_prefix, run_info, date_format_option, simple_output):
    json_v3_path = output_folder / f'{name_prefix}_v3.json'
    json_v3 = get_result_output(results=results, output_format=OutputFormat.JSON, simple_output=simple_output, date_format_option=date_format_option)
    write_output(output=json_v3, output_file=json_v3_path)
    run_info_path = output_folder / f'{name_prefix}_run_info.json'
    run_info_json = run_info.model_dump_json()
    write_output(output=run_info_json, output_file=run_info_path)


@target("ecalc_cli.io.output.write_ltp_export", props=["C15"])
def f_write_ltp_export(model, frequency, output_folder, name_prefix):
    export_tsv(config=LTPConfig, suffix='.ltp', frequency=frequency, name_prefix=name_prefix, output_folder=output_folder, model=model)


@target("ecalc_cli.io.output.write_stp_export", props=["C15"])
def f_write_stp_export(model, frequency, output_folder, name_prefix):
    export_tsv(config=STPConfig, suffix='.stp', frequency=frequency, name_prefix=name_prefix, output_folder=output_folder, model=model)


@target("ecalc_cli.io.output.export_tsv", props=["C15"])
def f_export_tsv(config, suffix, frequency, name_prefix, output_folder, model):
    prognosis_filter = config.filter(frequency=frequency)
    result = prognosis_filter.filter(ExportableYamlModel(model))
    row_based_data = CSVFormatter(separation_character='\t', index_formatters=PeriodFormatterConfig.get_row_index_formatters()).format_groups(result)
    exporter = Exporter()
    exporter.add_handler(MultiFileHandler(path=output_folder, prefix=name_prefix, suffix=suffix, extension='.tsv'))
    exporter.export(row_based_data)


@target("ecalc_cli.io.output.write_flow_diagram", props=["C15"])
def f_write_flow_diagram(energy_model, model_period, output_folder, name_prefix):
    flow_diagram = EnergyModelFlowDiagram(energy_model=energy_model, model_period=model_period).get_energy_flow_diagram()
    flow_diagram_filename = f'{name_prefix}.flow-diagram.json' if name_prefix != '' else 'flow-diagram.json'
    flow_diagram_path = output_folder / flow_diagram_filename
    try:
        flow_diagram_path.write_text(json.dumps([json.loads(flow_diagram.model_dump_json(by_alias=True))]))
    except OSError as e:
        raise EcalcCLIError(f'Failed to write flow diagram: {str(e)}')


@target("ecalc_cli.io.output.emission_intensity_to_csv", props=["C15"])
def f_emission_intensity_to_csv(emission_intensity_results, date_format):
    dfs = []
    for result in emission_intensity_results.results:
        df = result.to_dataframe(prefix=result.name)
        for col in ['intensity_yearly_sm3', 'intensity_yearly_boe']:
            if col in df.columns and df[col].isnull().all():
                df = df.drop(columns=[col])
        dfs.append(df)
    combined_df = pd.DataFrame() if not dfs else pd.concat(dfs, axis=1)
    if not combined_df.empty:
        combined_df.index = pd.to_datetime(combined_df.index).strftime(date_format)
    csv_data = dataframe_to_csv(combined_df.fillna('nan'), date_format=date_format)
    return csv_data


@target("ecalc_cli.main.version_callback", props=["C15"])
def f_version_callback(value):
    if value:
        print(f'eCalc™ Version: {libecalc.version.current_version()}')
        raise typer.Exit()


@target("ecalc_cli.main.argument_callback", props=["C15"])
def f_argument_callback(log_level=typer.Option(LogLevel.INFO.value, '--log', help='Set the loglevel.'), log_folder=typer.Option(None, '--log-folder', help='Store log files in a folder'), version=typer.Option(None, '--version', help='Show current eCalc™ version.', callback=version_callback)):
    cli_log_configurator = CLILogConfigurator()
    cli_log_configurator.set_loglevel(log_level)
    if log_folder:
        if not log_folder.exists():
            pass
        else:
            cli_log_configurator.set_log_path(log_folder)


@target("ecalc_cli.main.main", props=["C15"])
def f_main():
    try:
        app()
    except EcalcError as ee:
        if ee.error_type == EcalcErrorType.SERVER_ERROR:
            pass
    except Exception as e:
        raise e


@target("ecalc_cli.infrastructure.file_resource_service.FileResourceService.__init__", props=["C15"])
def FileResourceService_init(self, working_directory, configuration):
    self._working_directory = working_directory
    self._configuration = configuration


@target("ecalc_cli.infrastructure.file_resource_service.FileResourceService.get_time_series_resources", props=["C15"])
def FileResourceService_get_time_series_resources(self):
    resources = {}
    errors = []
    for timeseries_resource_name in self._configuration.timeseries_resource_names:
        try:
            resource_path = self._working_directory / timeseries_resource_name
            if not resource_path.is_file():
                continue
            resource = MemoryResource.from_path(self._working_directory / timeseries_resource_name, allow_nans=True)
            resources[timeseries_resource_name] = TimeSeriesResource(resource).validate()
        except InvalidResourceException as e:
            if e.file_mark is not None:
                start_file_mark = FileMark(line_number=e.file_mark.row, column=e.file_mark.column)
            else:
                start_file_mark = None
            file_context = FileContext(name=timeseries_resource_name, start=start_file_mark)
            errors.append(InvalidResource(message=str(e), resource_name=timeseries_resource_name, file_context=file_context))
    return (resources, errors)


@target("ecalc_cli.infrastructure.file_resource_service.FileResourceService.get_facility_resources", props=["C15"])
def FileResourceService_get_facility_resources(self):
    resources = {}
    errors = []
    for facility_resource_name in self._configuration.facility_resource_names:
        try:
            resource_path = self._working_directory / facility_resource_name
            if not resource_path.is_file():
                continue
            resource = MemoryResource.from_path(resource_path, allow_nans=False)
            resources[facility_resource_name] = resource
        except InvalidResourceException as e:
            if e.file_mark is not None:
                start_file_mark = FileMark(line_number=e.file_mark.row, column=e.file_mark.column)
            else:
                start_file_mark = None
            file_context = FileContext(name=facility_resource_name, start=start_file_mark)
            errors.append(InvalidResource(message=str(e), resource_name=facility_resource_name, file_context=file_context))
    return (resources, errors)


@target("libecalc.common.run_info.RunInfo", props=["C15"])
class RunInfoValues:
    end = None


@target("libecalc.presentation.yaml.model", props=["C15", "C25"])
class K18_constants:
    DEFAULT_START_TIME = datetime(1900, 1, 1)


@target("libecalc.presentation.yaml.model.Context.__init__", props=["C15", "C25"])
def Context_init(self, energy_model, consumer_results, component_id):
    self._energy_model = energy_model
    self._consumer_results = consumer_results
    self._component_id = component_id


@target("libecalc.presentation.yaml.model.Context._get_consumers_of_current", props=["C15", "C25"])
def Context_get_consumers_of_current(self):
    return [self._consumer_results[consumer_id] for consumer_id in self._energy_model.get_consumers(self._component_id)]


@target("libecalc.presentation.yaml.model.Context.get_power_requirement", props=["C15", "C25"])
def Context_get_power_requirement(self):
    consumer_results = self._get_consumers_of_current()
    consumer_power_usage = [consumer.power for consumer in consumer_results if consumer.power is not None]
    if len(consumer_power_usage) < 1:
        return None
    if len(consumer_power_usage) == 1:
        return consumer_power_usage[0]
    return reduce(operator.add, consumer_power_usage)


@target("libecalc.presentation.yaml.model.Context.get_fuel_usage", props=["C15", "C25"])
def Context_get_fuel_usage(self):
    energy_usage = self._consumer_results[self._component_id].energy_usage
    if energy_usage.unit == Unit.MEGA_WATT:
        return None
    return energy_usage


@target("libecalc.presentation.yaml.model.YamlModel.__init__", props=["C15", "C25"])
def YamlModel_init(self, configuration, resource_service):
    self._configuration = configuration
    self._resource_service = resource_service
    self._is_validated = False
    self._input = None
    self._consumer_results = {}
    self._time_series_collections = None
    self._variables = None
    self._mapping_context = MappingContext(target_period=self.period)
    self._id = uuid.uuid4()


@target("libecalc.presentation.yaml.model.YamlModel.get_process_simulations", props=["C15", "C25"])
def YamlModel_get_process_simulations(self, ecalc_event_service):
    self.validate_for_run()
    process_simulations = []
    facility_resources, _ = self._resource_service.get_facility_resources()
    mapper = ProcessSimulationMapper(expression_evaluator=self.get_expression_evaluator(), process_simulation_period=self.period, fluid_service=NeqSimFluidService.instance(), resources=facility_resources, reference_service=self._get_reference_service(), ecalc_event_service=ecalc_event_service)
    process_pipelines = []
    for yaml_process_simulation in self._configuration.process_simulations:
        process_pipeline, process_simulation = mapper.map_process_simulation(yaml_process_simulation=yaml_process_simulation, process_periods=self.get_periods())
        process_pipelines.extend(process_pipeline)
        process_simulations.append(process_simulation)
    return (process_pipelines, process_simulations)


@target("libecalc.presentation.yaml.model.YamlModel.get_events", props=["C15", "C25"])
def YamlModel_get_events(self):
    return EcalcEventMapper().map_events(yaml_ecalc_events=self._configuration.ecalc_events, yaml_process_events=self._configuration.process_events)


@target("libecalc.presentation.yaml.model.YamlModel.get_pump_process_simulations", props=["C15", "C25"])
def YamlModel_get_pump_process_simulations(self):
    self.validate_for_run()
    facility_resources, _ = self._resource_service.get_facility_resources()
    mapper = PumpProcessSimulationMapper(expression_evaluator=self.get_expression_evaluator(), process_simulation_period=self.period, resources=facility_resources, reference_service=self._get_reference_service())
    return [mapper.map(yaml_pump_process_simulation) for yaml_pump_process_simulation in self._configuration.pump_process_simulations]


@target("libecalc.presentation.yaml.model.YamlModel.get_periods", props=["C15", "C25"])
def YamlModel_get_periods(self):
    self.validate_for_run()
    return self._global_periods


@target("libecalc.presentation.yaml.model.YamlModel.get_emitter", props=["C15", "C25"])
def YamlModel_get_emitter(self, container_id):
    for installation in self.get_installations():
        for emitter in installation.get_emitters():
            if emitter.get_id() == container_id:
                return emitter
    return None


@target("libecalc.presentation.yaml.model.YamlModel.get_electricity_producer", props=["C15", "C25"])
def YamlModel_get_electricity_producer(self, sub_container_id):
    for installation in self.get_installations():
        for electricity_producer in installation.get_electricity_producers():
            if electricity_producer.get_id() == sub_container_id:
                return electricity_producer
    return None


@target("libecalc.presentation.yaml.model.YamlModel.get_fuel_consumer", props=["C15", "C25"])
def YamlModel_get_fuel_consumer(self, container_id):
    for installation in self.get_installations():
        for fuel_consumer in installation.get_fuel_consumers():
            if fuel_consumer.get_id() == container_id:
                return fuel_consumer
    return None


@target("libecalc.presentation.yaml.model.YamlModel.get_power_consumer", props=["C15", "C25"])
def YamlModel_get_power_consumer(self, container_id):
    for installation in self.get_installations():
        for power_consumer in installation.get_power_consumers():
            if power_consumer.get_id() == container_id:
                return power_consumer
    return None


@target("libecalc.presentation.yaml.model.YamlModel.get_regularity", props=["C15", "C25"])
def YamlModel_get_regularity(self, container_id):
    return self._mapping_context.get_regularity(container_id)


@target("libecalc.presentation.yaml.model.YamlModel.get_container_result", props=["C15", "C25"])
def YamlModel_get_container_result(self, sub_container_id):
    return self._consumer_results[sub_container_id]


@target("libecalc.presentation.yaml.model.YamlModel.get_operational_settings_used", props=["C15", "C25"])
def YamlModel_get_operational_settings_used(self, container_id):
    return self._consumer_results[container_id].operational_settings_used


@target("libecalc.presentation.yaml.model.YamlModel.get_name", props=["C15", "C25"])
def YamlModel_get_name(self):
    return self._configuration.name


@target("libecalc.presentation.yaml.model.YamlModel._energy_model", props=["C15", "C25"])
def YamlModel_energy_model(self):
    self.validate_for_run()
    return self._mapping_context.get_energy_container_energy_model_builder().build()


@target("libecalc.presentation.yaml.model.YamlModel.get_energy_model", props=["C15", "C25"])
def YamlModel_get_energy_model(self):
    return self._energy_model


@target("libecalc.presentation.yaml.model.YamlModel.get_container_info", props=["C15", "C25"])
def YamlModel_get_container_info(self, container_id):
    energy_component = self.get_energy_model().get_energy_container(container_id)
    return ContainerInfo(id=energy_component.get_id(), name=energy_component.get_name(), component_type=energy_component.get_component_process_type())


@target("libecalc.presentation.yaml.model.YamlModel.get_expression_evaluator", props=["C15", "C25"])
def YamlModel_get_expression_evaluator(self):
    return self.variables


@target("libecalc.presentation.yaml.model.YamlModel._get_reference_service", props=["C15", "C25"])
def YamlModel_get_reference_service(self):
    return YamlReferenceService(configuration=self._configuration)


@target("libecalc.presentation.yaml.model.YamlModel.period", props=["C15", "C25"])
def YamlModel_period(self):
    return Period(start=self.start or DEFAULT_START_TIME, end=self.end or datetime.max)


@target("libecalc.presentation.yaml.model.YamlModel.start", props=["C15", "C25"])
def YamlModel_start(self):
    return self._configuration.start


@target("libecalc.presentation.yaml.model.YamlModel.end", props=["C15", "C25"])
def YamlModel_end(self):
    return self._configuration.end


@target("libecalc.presentation.yaml.model.YamlModel._get_time_series_collections", props=["C15", "C25"])
def YamlModel_get_time_series_collections(self, time_series_resources):
    if self._time_series_collections is not None:
        return self._time_series_collections
    time_series_collections = TimeSeriesCollections.create(time_series=self._configuration.time_series, resources=time_series_resources)
    self._time_series_collections = time_series_collections
    return self._time_series_collections


@target("libecalc.presentation.yaml.model.YamlModel._get_periods", props=["C15", "C25"])
def YamlModel_get_periods_(self, time_series_time_vector):
    try:
        time_vector = get_global_time_vector(time_series_time_vector=time_series_time_vector, start=self._configuration.start, end=self._configuration.end, additional_dates=set(self._configuration.dates))
        periods = Periods.create_periods(time_vector, include_before=False, include_after=False)
        self._global_periods = periods.periods
        return periods
    except InvalidEndDate as e:
        location_keys = ('END',)
        raise ModelValidationException(errors=[ModelValidationError(message=str(e), location=Location(keys=location_keys), file_context=self._configuration.get_file_context(location_keys))])
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[ModelValidationError(message=str(e), location=Location(keys=''), file_context=self._configuration.get_file_context(()))])


@target("libecalc.presentation.yaml.model.YamlModel.variables", props=["C15", "C25"])
def YamlModel_variables(self):
    return self._variables


@target("libecalc.presentation.yaml.model.YamlModel._get_token_references", props=["C15", "C25"])
def YamlModel_get_token_references(self, time_series_references):
    token_references = time_series_references
    for reference in self._configuration.variables:
        token_references.append(f'$var.{reference}')
    return token_references


@target("libecalc.presentation.yaml.model.YamlModel._get_model_types", props=["C15", "C25"])
def YamlModel_get_model_types(self):
    models = [*self._configuration.models, *self._configuration.facility_inputs]
    model_types = {}
    for model in models:
        if hasattr(model, 'name'):
            model_types[model.name] = model
    return model_types


@target("libecalc.presentation.yaml.model.YamlModel._get_validation_context", props=["C15", "C25"])
def YamlModel_get_validation_context(self, resource_names, token_references):
    return {YamlModelValidationContextNames.model_name: self._configuration.name, YamlModelValidationContextNames.resource_file_names: resource_names, YamlModelValidationContextNames.expression_tokens: token_references, YamlModelValidationContextNames.model_types: self._get_model_types()}


@target("libecalc.presentation.yaml.model.YamlModel.validate_for_run", props=["C15", "C25"])
def YamlModel_validate_for_run(self):
    if self._is_validated:
        return self
    time_series_resources, time_series_resource_errors = self._resource_service.get_time_series_resources()
    facility_resources, facility_resource_errors = self._resource_service.get_facility_resources()
    resource_errors = [*time_series_resource_errors, *facility_resource_errors]
    time_series_collections = self._get_time_series_collections(time_series_resources=time_series_resources)
    configuration_validation_errors = []
    try:
        resource_names = time_series_resources.keys() | facility_resources.keys() | {error.resource_name for error in resource_errors}
        validation_context = self._get_validation_context(resource_names=resource_names, token_references=self._get_token_references(time_series_references=time_series_collections.get_time_series_references()))
        self._configuration.validate(validation_context)
    except ModelValidationException as e:
        configuration_validation_errors = e.errors()
    if len(resource_errors) > 0 or len(configuration_validation_errors) > 0:
        resource_model_validation_errors = [ModelValidationError(message=error.message, file_context=error.file_context, data=None, location=Location([error.resource_name])) for error in resource_errors]
        raise ModelValidationException(errors=[*resource_model_validation_errors, *configuration_validation_errors])
    try:
        self._variables = map_yaml_to_variables(configuration=self._configuration, time_series_provider=time_series_collections, periods=self._get_periods(time_series_collections.get_time_vector()))
        reference_service = self._get_reference_service()
        model_mapper = EcalcModelMapper(resources=facility_resources, references=reference_service, target_period=self.period, expression_evaluator=self._variables, mapping_context=self._mapping_context, configuration=self._configuration)
        self._input = model_mapper.from_yaml_to_domain(model_id=self._id, model_name=self._configuration.name)
        self._is_validated = True
        return self
    except InvalidVariablesException as e:
        variables_path = YamlPath(keys=('VARIABLES',))
        raise ModelValidationException(errors=[ModelValidationError(location=Location(keys=variables_path.keys), message=str(e), data=None, file_context=self._configuration.get_file_context(variables_path.keys))])


@target("libecalc.presentation.yaml.model.YamlModel._get_context", props=["C15", "C25"])
def YamlModel_get_context(self, component_id):
    return Context(energy_model=self.get_energy_model(), consumer_results=self._consumer_results, component_id=component_id)


@target("libecalc.presentation.yaml.model.YamlModel.evaluate_energy_usage", props=["C15", "C25"])
def YamlModel_evaluate_energy_usage(self):
    energy_components = self.get_energy_model().get_energy_components()
    process_system_results = self._evaluate_process_systems()
    compressors_sampled_results = self._evaluate_compressors_sampled()
    all_model_results = {**process_system_results, **compressors_sampled_results}
    consumer_results_from_models = self.get_consumer_energy_results_from_domain_models(model_results=all_model_results)
    for energy_component_id in energy_components:
        energy_component = self.get_energy_model().get_energy_container(energy_component_id)
        if hasattr(energy_component, 'evaluate_energy_usage'):
            context = self._get_context(energy_component.get_id())
            if consumer_results_from_models.get(energy_component.get_id()) is not None:
                consumer_result = consumer_results_from_models.get(energy_component.get_id())
                energy_component._consumer_result = consumer_result
            else:
                consumer_result = energy_component.evaluate_energy_usage(context=context)
            self._consumer_results[energy_component.get_id()] = consumer_result


@target("libecalc.presentation.yaml.model.YamlModel.get_validity", props=["C15", "C25"])
def YamlModel_get_validity(self, component_id):
    energy_model = self.get_energy_model()
    component = energy_model.get_energy_container(component_id)
    if isinstance(component, Installation | Asset):
        validity = []
        children = energy_model.get_all_children(component_id)
        for child_id in children:
            validity.append(self.get_validity(child_id))
        return reduce(lambda acc, current: acc * current, validity)
    if component_id in self._consumer_results:
        return self._consumer_results[component_id].is_valid
    else:
        periods = self._variables.periods
        return TimeSeriesBoolean(periods=periods, values=[True] * len(periods), unit=Unit.NONE)


@target("libecalc.presentation.yaml.model.YamlModel.get_installations", props=["C15", "C25"])
def YamlModel_get_installations(self):
    return self._input.installations


@target("libecalc.presentation.yaml.model.YamlModel.get_category_service", props=["C15", "C25"])
def YamlModel_get_category_service(self):
    return self._mapping_context


@target("libecalc.presentation.yaml.model.YamlModel.get_process_service", props=["C15", "C25"])
def YamlModel_get_process_service(self):
    return self._mapping_context._process_service


@target("libecalc.presentation.yaml.model.YamlModel._evaluate_compressor_process_systems", props=["C15", "C25"])
def YamlModel_evaluate_compressor_process_systems(self):
    process_service = self.get_process_service()
    compressor_process_systems = process_service.compressor_process_systems
    evaluated_systems = {}
    for id, process_system in compressor_process_systems.items():
        evaluation_input = process_service.get_evaluation_input(model_id=id)
        evaluation_input.apply_to_model(process_system)
        model_result = process_system.evaluate()
        evaluated_systems[id] = model_result
    return evaluated_systems


@target("libecalc.presentation.yaml.model.YamlModel._evaluate_pump_process_systems", props=["C15", "C25"])
def YamlModel_evaluate_pump_process_systems(self):
    process_service = self.get_process_service()
    pump_process_systems = process_service.pump_process_systems
    evaluated_systems = {}
    for id, process_system in pump_process_systems.items():
        evaluation_input = process_service.get_evaluation_input(model_id=id)
        evaluation_input.apply_to_model(process_system)
        model_result = process_system.evaluate()
        evaluated_systems[id] = model_result
    return evaluated_systems


@target("libecalc.presentation.yaml.model.YamlModel._evaluate_compressors_sampled", props=["C15", "C25"])
def YamlModel_evaluate_compressors_sampled(self):
    process_service = self.get_process_service()
    compressors_sampled = process_service.compressors_sampled
    evaluated_compressors_sampled = {}
    for id, compressor_sampled in compressors_sampled.items():
        evaluation_input = process_service.get_evaluation_input(model_id=id)
        evaluation_input.apply_to_model(compressor_sampled)
        model_result = compressor_sampled.evaluate()
        evaluated_compressors_sampled[id] = model_result
    return evaluated_compressors_sampled


@target("libecalc.presentation.yaml.model.YamlModel._evaluate_process_systems", props=["C15", "C25"])
def YamlModel_evaluate_process_systems(self):
    compressor_system_results = self._evaluate_compressor_process_systems()
    pump_system_results = self._evaluate_pump_process_systems()
    process_system_results = {**compressor_system_results, **pump_system_results}
    return process_system_results


@target("libecalc.presentation.yaml.model.YamlModel.get_consumer_energy_results_from_domain_models", props=["C15", "C25"])
def YamlModel_get_consumer_energy_results_from_domain_models(self, model_results):
    process_service = self.get_process_service()
    allowed_model_result_types = (CompressorTrainResult, PumpModelResult)
    consumer_function_results = {}
    for (consumer_id, _period), model_id in process_service.consumer_to_model_map.items():
        model_result = model_results.get(model_id)
        if model_result is not None:
            evaluation_input = process_service.get_evaluation_input(model_id=model_id)
            power_loss_factor = evaluation_input.power_loss_factor if evaluation_input else None
            consumer_function_results.setdefault(consumer_id, []).append(ConsumerFunctionResult(periods=evaluation_input.periods, energy_function_result=model_result, power_loss_factor=power_loss_factor))
    consumer_results = {}
    for consumer_id, consumer_function_result in consumer_function_results.items():
        container_info = self.get_container_info(consumer_id)
        if container_info.component_type == ComponentType.PUMP:
            consumer_result = PumpResult(id=container_info.name, periods=self.get_expression_evaluator().get_periods(), results=consumer_function_result)
        else:
            consumer_result = CompressorResult(id=container_info.name, periods=self.get_expression_evaluator().get_periods(), results=consumer_function_result)
        consumer_results[consumer_id] = consumer_result
    return consumer_results
