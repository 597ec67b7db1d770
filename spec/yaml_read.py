# Reference equations (parsed by the checker, never executed).
import pandas as pd
from copy import deepcopy
from datetime import date
from io import StringIO
from libecalc.common.errors.exceptions import ColumnNotFoundException, HeaderNotFoundException, InvalidColumnException, InvalidDateException, InvalidHeaderException, InvalidResourceException, ProgrammingError
from libecalc.common.string.string_utils import get_duplicates
from libecalc.common.time_utils import convert_date_to_datetime, is_temporal_model
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType
from libecalc.expression.expression import Expression, InvalidExpressionError
from libecalc.expression.expression_evaluator import TokenTag
from libecalc.presentation.yaml.energy_model_validation import validate_energy_usage_models
from libecalc.presentation.yaml.file_context import FileMark
from libecalc.presentation.yaml.ltp_validation import validate_generator_set_power_from_shore
from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException
from libecalc.presentation.yaml.validation_errors import Location, ModelValidationError, custom_errors, remove_prefix_if_exists
from libecalc.presentation.yaml.yaml_entities import MemoryResource, ResourceStream
from libecalc.presentation.yaml.yaml_keywords import EcalcYamlKeywords
from libecalc.presentation.yaml.yaml_models.exceptions import DuplicateKeyError, YamlError
from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel, _find_file_references, datetime_parser, find_date_keys_in_yaml
from libecalc.presentation.yaml.yaml_models.ruamel_yaml_model import RuamelYamlModel
from libecalc.presentation.yaml.yaml_models.yaml_model import ReaderType, YamlConfiguration
from libecalc.presentation.yaml.yaml_node import YamlDict, YamlList
from libecalc.presentation.yaml.yaml_types.components.yaml_asset import YamlAsset, YamlDefinitions
from libecalc.presentation.yaml.yaml_types.components.yaml_category_field import CategoryField
from libecalc.presentation.yaml.yaml_types.components.yaml_expression_type import _ExpressionMarker
from libecalc.presentation.yaml.yaml_types.components.yaml_installation import YamlInstallation
from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model import FacilityTypeField, YamlFacilityModel
from libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type import YamlFuelType
from libecalc.presentation.yaml.yaml_types.models import YamlCompressorWithTurbine, YamlConsumerModel, YamlFluidModel
from libecalc.presentation.yaml.yaml_types.models.model_reference_validation import InvalidModelReferenceType, ModelReferenceNotFound
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart import UnitsField, YamlEfficiencyUnits, YamlHeadUnits, YamlRateUnits, YamlUnits
from libecalc.presentation.yaml.yaml_types.models.yaml_enums import YamlChartType, YamlModelType, YamlPressureControl
from libecalc.presentation.yaml.yaml_types.models.yaml_fluid import YamlEosModel, YamlFluidModelType, YamlPredefinedFluidType
from libecalc.presentation.yaml.yaml_types.process.yaml_fluid_definitions import YamlFluidDefinition
from libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline import YamlProcessPipeline
from libecalc.presentation.yaml.yaml_types.process.yaml_process_simulation import YamlEcalcEvent, YamlProcessEvent, YamlProcessSimulation, YamlPumpProcessSimulation
from libecalc.presentation.yaml.yaml_types.process.yaml_process_units import YamlProcessUnitDefinition
from libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream import YamlInletStream
from libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series import YamlTimeSeriesCollection
from libecalc.presentation.yaml.yaml_types.yaml_default_datetime import YamlDefaultDatetime
from libecalc.presentation.yaml.yaml_types.yaml_stream_conditions import YamlEmissionRateUnits, YamlOilRateUnits
from libecalc.presentation.yaml.yaml_types.yaml_variable import YamlVariable, YamlVariableReferenceId
from libecalc.presentation.yaml.yaml_validation_context import YamlModelValidationContextNames
from pathlib import Path
from pydantic import BaseModel, BeforeValidator, Field, TypeAdapter, ValidationError as PydanticValidationError
from pydantic_core import PydanticCustomError
from ruamel.yaml import YAML, YAMLError
from typing import assert_never
from yaml import SafeLoader
_DEFINITIONS_KEY = 'DEFINITIONS'
_INLET_STREAMS_KEY = 'INLET_STREAMS'
_FLUID_MODELS_KEY = 'FLUID_MODELS'
_FLUIDS_KEY = 'FLUIDS'
_PROCESS_UNITS_KEY = 'PROCESS_UNITS'
_PROCESS_PIPELINES_KEY = 'PROCESS_PIPELINES'
_PROCESS_SIMULATIONS_KEY = 'PROCESS_SIMULATIONS'
_ECALC_EVENTS_KEY = 'ECALC_EVENTS'
_PROCESS_EVENTS_KEY = 'PROCESS_EVENTS'
_PUMP_PROCESS_SIMULATIONS_KEY = 'PUMP_PROCESS_SIMULATIONS'
date_repr_pattern = 'datetime\\.date\\(([0-9]{4}),\\s([0-9]{1,2}),\\s([0-9]{1,2})\\)'
CUSTOM_MESSAGES = {'missing': 'This keyword is missing, it is required', 'extra_forbidden': 'This is not a valid keyword', 'string_pattern_mismatch': 'The string/name contains illegal characters. Allowed characters are: {pattern}. A good start can be to check the string/name for space, which is not allowed.', 'union_tag_not_found': 'The keyword {discriminator} is missing, it is required.'}


@target("libecalc.presentation.yaml.yaml_models.exceptions.YamlError.__init__", props=["C26"])
def YamlError_init(self, problem, file_context=None):
    self.problem = problem
    self.file_context = file_context
    message = f'{problem}'
    if file_context is not None:
        message += str(file_context)
    super().__init__(message)


@target("libecalc.presentation.yaml.yaml_models.exceptions.DuplicateKeyError.__init__", props=["C26"])
def DuplicateKeyError_init(self, key, file_context):
    self.key = key
    super().__init__(f'Duplicate key {key!r} is found', file_context)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model", props=["C26"])
class K2_constants:
    _DEFINITIONS_KEY = 'DEFINITIONS'
    _PROCESS_UNITS_KEY = 'PROCESS_UNITS'
    _PROCESS_PIPELINES_KEY = 'PROCESS_PIPELINES'
    _INLET_STREAMS_KEY = 'INLET_STREAMS'
    _FLUID_MODELS_KEY = 'FLUID_MODELS'
    _FLUIDS_KEY = 'FLUIDS'
    _PROCESS_SIMULATIONS_KEY = 'PROCESS_SIMULATIONS'
    _ECALC_EVENTS_KEY = 'ECALC_EVENTS'
    _PROCESS_EVENTS_KEY = 'PROCESS_EVENTS'
    _PUMP_PROCESS_SIMULATIONS_KEY = 'PUMP_PROCESS_SIMULATIONS'


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.datetime_parser", props=["C26"])
def f_datetime_parser(key):
    return dt_adapter.validate_python(key)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.get_validator", props=["C26"])
def PyYamlYamlModel_get_validator(cls, *args, **kwargs):
    return cls.read(*args, **kwargs)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.__init__", props=["C26"])
def PyYamlYamlModel_init(self, internal_datamodel, name, instantiated_through_read=False):
    if not instantiated_through_read:
        raise ProgrammingError(f'{self.__class__} can only be instantiated through read() method/named constructor')
    super().__init__(internal_datamodel=internal_datamodel, name=name)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.dump", props=["C26"])
def PyYamlYamlModel_dump(self):
    if self._internal_datamodel is None:
        raise ProgrammingError('You cannot dump a model without first reading one. Use read() to read a model.')
    return PyYamlYamlModel.dump_yaml(self._internal_datamodel)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.read", props=["C26"])
def PyYamlYamlModel_read(cls, main_yaml, base_dir=None, resources=None, enable_include=True):
    internal_datamodel = PyYamlYamlModel.read_yaml(main_yaml=main_yaml, resources=resources, base_dir=base_dir, enable_include=enable_include)
    self = cls(internal_datamodel=internal_datamodel, name=main_yaml.name, instantiated_through_read=True)
    return self


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._read_yaml_helper", props=["C26"])
def PyYamlYamlModel_read_yaml_helper(yaml_file, loader, enable_include=True, base_dir=None, resources=None):
    yaml_reader = PyYamlYamlModel.YamlReader(loader=loader, enable_include=enable_include, base_dir=base_dir, resources=resources)
    return yaml_reader.load(yaml_file)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.dump_and_load_yaml", props=["C26"])
def PyYamlYamlModel_dump_and_load_yaml(main_yaml, enable_include=True, base_dir=None, resources=None):
    yaml_reader = PyYamlYamlModel.YamlReader(loader=SafeLoader, enable_include=enable_include, base_dir=base_dir, resources=resources)
    return yaml_reader.dump_and_load(main_yaml)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.dump_yaml", props=["C26"])
def PyYamlYamlModel_dump_yaml(yaml_dict):
    return yaml.dump(yaml_dict, Dumper=PyYamlYamlModel.IndentationDumper, sort_keys=False)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.read_yaml", props=["C26"])
def PyYamlYamlModel_read_yaml(main_yaml, enable_include=True, base_dir=None, resources=None):
    try:
        read_yaml = PyYamlYamlModel._read_yaml_helper(yaml_file=main_yaml, loader=PyYamlYamlModel.SafeLineLoader, enable_include=enable_include, base_dir=base_dir, resources=resources)
        if read_yaml is None:
            raise yaml.YAMLError('YAML is empty')
        if not isinstance(read_yaml, dict):
            raise yaml.YAMLError('Not a valid YAML object')
        return read_yaml
    except yaml.YAMLError as e:
        file_context = None
        if hasattr(e, 'problem_mark'):
            mark = e.problem_mark
            if mark is not None:
                file_context = FileContext(name=mark.name, start=FileMark(line_number=mark.line + 1, column=mark.column + 1))
        problem = 'Invalid YAML file'
        if hasattr(e, 'problem'):
            optional_problem = e.problem
            if optional_problem is not None:
                problem = optional_problem
        raise YamlError(problem=problem, file_context=file_context)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.name", props=["C26"])
def PyYamlYamlModel_name(self):
    return self._name


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._get_yaml_data_or_default", props=["C26"])
def PyYamlYamlModel_get_yaml_data_or_default(self, keyword, factory):
    default = factory()
    if not isinstance(self._internal_datamodel, dict):
        return default
    data = self._internal_datamodel.get(keyword, default)
    if data is None or not isinstance(data, factory):
        return default
    return data


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._get_yaml_list_or_empty", props=["C26"])
def PyYamlYamlModel_get_yaml_list_or_empty(self, keyword):
    return self._get_yaml_data_or_default(keyword, list)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._get_yaml_dict_or_empty", props=["C26"])
def PyYamlYamlModel_get_yaml_dict_or_empty(self, keyword):
    return self._get_yaml_data_or_default(keyword, dict)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.facility_resource_names", props=["C26"])
def PyYamlYamlModel_facility_resource_names(self):
    facility_input_data = self._get_yaml_list_or_empty(EcalcYamlKeywords.facility_inputs)
    model_curves_data = [model.get(model_curves) for model in self._get_yaml_list_or_empty(EcalcYamlKeywords.models) for model_curves in [EcalcYamlKeywords.consumer_chart_curves, EcalcYamlKeywords.consumer_chart_curve] if isinstance(model.get(model_curves), dict)]
    resource_data = facility_input_data + model_curves_data
    resource_names = [data.get(EcalcYamlKeywords.file) for data in resource_data if data.get(EcalcYamlKeywords.file) is not None]
    definitions = self._internal_datamodel.get(_DEFINITIONS_KEY, {}) if isinstance(self._internal_datamodel, dict) else {}
    if isinstance(definitions, dict):
        for section in ('PROCESS_UNITS',):
            resource_names.extend(_find_file_references(definitions.get(section)))
    for section in ('PROCESS_PIPELINES',):
        resource_names.extend(_find_file_references(self._internal_datamodel.get(section)))
    return list(dict.fromkeys(resource_names))


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.timeseries_resource_names", props=["C26"])
def PyYamlYamlModel_timeseries_resource_names(self):
    timeseries_resources = []
    for resource in self._get_yaml_list_or_empty(EcalcYamlKeywords.time_series):
        resource_name = resource.get(EcalcYamlKeywords.file)
        if resource_name is not None:
            timeseries_resources.append(resource_name)
    return timeseries_resources


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.variables", props=["C26"])
def PyYamlYamlModel_variables(self):
    variables = self._get_yaml_dict_or_empty(EcalcYamlKeywords.variables)
    valid_variables = {}
    for reference, variable in variables.items():
        try:
            reference = TypeAdapter(YamlVariableReferenceId).validate_python(reference)
            variable = TypeAdapter(YamlVariable).validate_python(variable)
            valid_variables[reference] = variable
        except PydanticValidationError:
            continue
    return valid_variables


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.yaml_variables", props=["C26"])
def PyYamlYamlModel_yaml_variables(self):
    return self._get_yaml_dict_or_empty(EcalcYamlKeywords.variables)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.facility_inputs", props=["C26"])
def PyYamlYamlModel_facility_inputs(self):
    facility_inputs = []
    for facility_input in self._get_yaml_list_or_empty(EcalcYamlKeywords.facility_inputs):
        try:
            facility_inputs.append(TypeAdapter(YamlFacilityModel).validate_python(facility_input))
        except PydanticValidationError:
            pass
    return facility_inputs


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.models", props=["C26"])
def PyYamlYamlModel_models(self):
    models = []
    for model in self._get_yaml_list_or_empty(EcalcYamlKeywords.models):
        try:
            models.append(TypeAdapter(YamlConsumerModel).validate_python(model))
        except PydanticValidationError:
            pass
    return models


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.time_series", props=["C26"])
def PyYamlYamlModel_time_series(self):
    time_series = []
    for time_series_data in self._get_yaml_list_or_empty(EcalcYamlKeywords.time_series):
        try:
            time_series.append(TypeAdapter(YamlTimeSeriesCollection).validate_python(time_series_data))
        except PydanticValidationError:
            pass
    return time_series


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.fuel_types", props=["C26"])
def PyYamlYamlModel_fuel_types(self):
    fuel_types = []
    for fuel_type in self._get_yaml_list_or_empty(EcalcYamlKeywords.fuel_types):
        try:
            fuel_types.append(TypeAdapter(YamlFuelType).validate_python(fuel_type))
        except PydanticValidationError:
            pass
    return fuel_types


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.installations", props=["C26"])
def PyYamlYamlModel_installations(self):
    installations = []
    for installation in self._get_yaml_list_or_empty(EcalcYamlKeywords.installations):
        try:
            installations.append(TypeAdapter(YamlInstallation).validate_python(installation))
        except PydanticValidationError:
            pass
    return installations


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.inlet_streams", props=["C26"])
def PyYamlYamlModel_inlet_streams(self):
    inlet_streams = {}
    raw = self._get_yaml_dict_or_empty(_INLET_STREAMS_KEY)
    adapter = TypeAdapter(YamlInletStream)
    for name, stream in raw.items():
        try:
            inlet_streams[name] = adapter.validate_python(stream)
        except PydanticValidationError:
            pass
    return inlet_streams


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.fluid_models", props=["C26"])
def PyYamlYamlModel_fluid_models(self):
    fluid_models = {}
    raw = self._get_yaml_dict_or_empty(_FLUID_MODELS_KEY)
    for name, fluid_model in raw.items():
        try:
            fluid_models[name] = TypeAdapter(YamlFluidModel).validate_python(fluid_model)
        except PydanticValidationError:
            pass
    return fluid_models


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.definitions", props=["C26"])
def PyYamlYamlModel_definitions(self):
    process_units = {}
    fluids = {}
    definitions = self._internal_datamodel.get(_DEFINITIONS_KEY, {}) if isinstance(self._internal_datamodel, dict) else {}
    raw_process_units = definitions.get(_PROCESS_UNITS_KEY, {}) if isinstance(definitions, dict) else {}
    raw_fluids = definitions.get(_FLUIDS_KEY, {}) if isinstance(definitions, dict) else {}
    for name, unit_data in raw_process_units.items():
        try:
            process_units[name] = TypeAdapter(YamlProcessUnitDefinition).validate_python(unit_data)
        except PydanticValidationError:
            pass
    for name, fluid_data in raw_fluids.items():
        try:
            fluids[name] = TypeAdapter(YamlFluidDefinition).validate_python(fluid_data)
        except PydanticValidationError:
            pass
    return YamlDefinitions(process_units=process_units, fluids=fluids)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.process_pipelines", props=["C26"])
def PyYamlYamlModel_process_pipelines(self):
    process_pipelines = {}
    raw = self._get_yaml_dict_or_empty(_PROCESS_PIPELINES_KEY)
    for name, process_pipeline in raw.items():
        try:
            process_pipelines[name] = TypeAdapter(YamlProcessPipeline).validate_python(process_pipeline)
        except PydanticValidationError:
            pass
    return process_pipelines


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.process_simulations", props=["C26"])
def PyYamlYamlModel_process_simulations(self):
    process_simulations = []
    adapter = TypeAdapter(YamlProcessSimulation)
    for process_simulation in self._get_yaml_list_or_empty(_PROCESS_SIMULATIONS_KEY):
        try:
            process_simulations.append(adapter.validate_python(process_simulation))
        except PydanticValidationError:
            pass
    return process_simulations


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.ecalc_events", props=["C26"])
def PyYamlYamlModel_ecalc_events(self):
    ecalc_events = []
    adapter = TypeAdapter(YamlEcalcEvent)
    for ecalc_event in self._get_yaml_list_or_empty(_ECALC_EVENTS_KEY):
        try:
            ecalc_events.append(adapter.validate_python(ecalc_event))
        except PydanticValidationError:
            pass
    return ecalc_events


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.process_events", props=["C26"])
def PyYamlYamlModel_process_events(self):
    process_events = []
    adapter = TypeAdapter(YamlProcessEvent)
    for process_event in self._get_yaml_list_or_empty(_PROCESS_EVENTS_KEY):
        try:
            process_events.append(adapter.validate_python(process_event))
        except PydanticValidationError:
            pass
    return process_events


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.pump_process_simulations", props=["C26"])
def PyYamlYamlModel_pump_process_simulations(self):
    pump_process_simulations = []
    adapter = TypeAdapter(YamlPumpProcessSimulation)
    for pump_process_simulation in self._get_yaml_list_or_empty(_PUMP_PROCESS_SIMULATIONS_KEY):
        try:
            pump_process_simulations.append(adapter.validate_python(pump_process_simulation))
        except PydanticValidationError:
            pass
    return pump_process_simulations


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.start", props=["C26"])
def PyYamlYamlModel_start(self):
    start_value = self._internal_datamodel.get(EcalcYamlKeywords.start)
    return TypeAdapter(YamlDefaultDatetime).validate_python(start_value) if start_value is not None else None


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.end", props=["C26"])
def PyYamlYamlModel_end(self):
    end_value = self._internal_datamodel.get(EcalcYamlKeywords.end)
    return TypeAdapter(YamlDefaultDatetime).validate_python(end_value) if end_value is not None else None


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.dates", props=["C26"])
def PyYamlYamlModel_dates(self):
    return set(find_date_keys_in_yaml(self._internal_datamodel))


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.validate", props=["C26"])
def PyYamlYamlModel_validate(self, context):
    try:
        YamlAsset.model_validate(deepcopy(self._internal_datamodel), context=context)
        return self
    except PydanticValidationError as e:
        errors = []
        for error in custom_errors(e):
            yaml_path = self._get_yaml_path_from_pydantic_loc(error['loc'])
            location = Location.from_pydantic_loc(yaml_path.keys)
            file_context = self._get_closest_file_context(location.keys, is_pydantic_loc=True)
            errors.append(ModelValidationError(message=error['msg'], location=location, file_context=file_context, data=None))
        raise ModelValidationException(errors=errors)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._node_to_file_context", props=["C26"])
def PyYamlYamlModel_node_to_file_context(self, data):
    return FileContext(name=data.start_mark.name, start=FileMark(line_number=data.start_mark.line + 1, column=data.start_mark.column), end=FileMark(line_number=data.end_mark.line + 1, column=data.end_mark.column))


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._get_yaml_path_from_pydantic_loc", props=["C26"])
def PyYamlYamlModel_get_yaml_path_from_pydantic_loc(self, locs):
    yaml_keys = YamlPath(())
    for loc in locs:
        if loc in ['single', 'temporal']:
            continue
        else:
            yaml_keys = yaml_keys.append(loc)
    return yaml_keys


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel._get_closest_file_context", props=["C26"])
def PyYamlYamlModel_get_closest_file_context(self, yaml_path, is_pydantic_loc=False):
    current_data = self._internal_datamodel
    closest_file_context = self._node_to_file_context(current_data)
    for key in yaml_path:
        did_alter_data = False
        if isinstance(key, str) and isinstance(current_data, dict | YamlDict):
            if key not in current_data:
                key = key.upper()
            if key in current_data:
                current_data = current_data[key]
                did_alter_data = True
        elif isinstance(key, int) and isinstance(current_data, list | YamlList):
            try:
                current_data = current_data[key]
                did_alter_data = True
            except IndexError:
                pass
        elif isinstance(key, datetime.date) and isinstance(current_data, dict | YamlDict):
            try:
                date = datetime_parser(key)
                current_data = next((value for inner_key, value in current_data.items() if datetime_parser(inner_key) == date))
                did_alter_data = True
            except (PydanticValidationError, StopIteration):
                pass
        if did_alter_data and isinstance(current_data, YamlDict):
            closest_file_context = self._node_to_file_context(current_data)
        if not did_alter_data:
            if is_pydantic_loc:
                continue
            else:
                return closest_file_context
    return closest_file_context


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.get_file_context", props=["C26"])
def PyYamlYamlModel_get_file_context(self, yaml_path):
    return self._get_closest_file_context(yaml_path)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.find_date_keys_in_yaml", props=["C26"])
def f_find_date_keys_in_yaml(yaml_object):

    def common_iterable(obj):
        if isinstance(obj, dict):
            return obj
        else:
            return (idx for idx, value in enumerate(obj))
    output = []
    for index in common_iterable(yaml_object):
        if isinstance(index, datetime.date | datetime.datetime):
            index_to_datetime = convert_date_to_datetime(index)
            if index_to_datetime not in output:
                output.append(index_to_datetime)
        if isinstance(yaml_object[index], dict | list):
            output.extend(find_date_keys_in_yaml(yaml_object[index]))
    return output


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model._find_file_references", props=["C26"])
def f_find_file_references(node):
    references = []
    if isinstance(node, dict):
        for key, value in node.items():
            if key == EcalcYamlKeywords.file and isinstance(value, str):
                references.append(value)
            else:
                references.extend(_find_file_references(value))
    elif isinstance(node, list):
        for item in node:
            references.extend(_find_file_references(item))
    return references


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.get_validator", props=["C26"])
def RuamelYamlModel_get_validator(cls, main_yaml, base_dir=None, resources=None, enable_include=False):
    raise NotImplementedError()


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.__init__", props=["C26"])
def RuamelYamlModel_init(self, internal_datamodel, name, instantiated_through_read=False):
    if not instantiated_through_read:
        raise ProgrammingError(f'{self.__class__} can only be instantiated through read() method/named constructor')
    super().__init__(internal_datamodel=internal_datamodel, name=name)


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.dump", props=["C26"])
def RuamelYamlModel_dump(self):
    if self._internal_datamodel is None:
        raise ProgrammingError('You cannot dump a model without first reading one. Use read() to read a model.')
    string_buffer = io.StringIO()
    try:
        string_buffer.seek(0)
        self.__get_loader().dump(self._internal_datamodel, string_buffer)
        ret = string_buffer.getvalue()
    finally:
        string_buffer.close()
    return ret


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.__get_loader", props=["C26"])
def RuamelYamlModel_get_loader(enable_include=False, base_dir=None, resources=None):
    yaml_loader = YAML(typ='rt')
    yaml_loader.preserve_quotes = True
    yaml_loader.default_flow_style = False
    yaml_loader.indent(mapping=2, sequence=4, offset=2)
    if enable_include:

        @yaml_loader.register_class
        class IncludeConstructor:
            yaml_tag = '!include'

            def __init__(self, string):
                self._string = string

            @classmethod
            def from_yaml(cls, constructor, node):
                if resources:
                    resource_stream = resources[node.value]
                    resource_stream.seek(0)
                    yaml_resource = ResourceStream(name=node.value, stream=resource_stream)
                    return RuamelYamlModel._load(yaml_file=yaml_resource, base_dir=base_dir, resources=resources, enable_include=enable_include)
                else:
                    return RuamelYamlModel._load(yaml_file=ResourceStream(name=node.value, stream=Path(base_dir / node.value).open('r')), base_dir=base_dir, resources=resources, enable_include=enable_include)

            def __repr__(self):
                return repr(self._string)
    return yaml_loader


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.read", props=["C26"])
def RuamelYamlModel_read(cls, main_yaml, base_dir=None, resources=None, enable_include=False):
    internal_datamodel = RuamelYamlModel._load(yaml_file=main_yaml, resources=resources, enable_include=enable_include, base_dir=base_dir)
    self = cls(internal_datamodel=internal_datamodel, name=main_yaml.name, instantiated_through_read=True)
    return self


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel._load", props=["C26"])
def RuamelYamlModel_load(yaml_file, base_dir=None, resources=None, enable_include=False):
    try:
        return RuamelYamlModel.__get_loader(resources=resources, enable_include=enable_include, base_dir=base_dir).load(yaml_file)
    except KeyError as ke:
        raise YamlError(problem=f'Error occurred while loading yaml file, key {ke} not found')
    except YAMLError as e:
        file_context = None
        if hasattr(e, 'problem_mark'):
            mark = e.problem_mark
            if mark is not None:
                file_context = FileContext(name=yaml_file.name, start=FileMark(line_number=mark.line + 1, column=mark.column + 1))
        problem = 'Invalid YAML file'
        if hasattr(e, 'problem'):
            optional_problem = e.problem
            if optional_problem is not None:
                problem = optional_problem
        raise YamlError(problem=problem, file_context=file_context)
    except Exception as e:
        raise YamlError(problem='We are not able to load the yaml due to an error: ' + str(e))


@target("libecalc.presentation.yaml.yaml_models.ruamel_yaml_model.RuamelYamlModel.name", props=["C26"])
def RuamelYamlModel_name(self):
    return self._name


@target("libecalc.presentation.yaml.yaml_models.yaml_model.ReaderType", props=["C26"])
class ReaderTypeValues:
    RUAMEL = 'RUAMEL'
    PYYAML = 'PYYAML'


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration", props=["C26"])
class YamlConfigurationValues:
    _internal_datamodel = {}


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.__init__", props=["C26"])
def YamlConfiguration_init(self, internal_datamodel, name):
    self._internal_datamodel = internal_datamodel
    self._name = name


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.update_resource_names", props=["C26"])
def YamlConfiguration_update_resource_names(self, mappings):
    update_statuses = {}
    for old_name, new_name in mappings.items():
        update_statuses[old_name] = self.update_resource_name(old_name, new_name)
    return update_statuses


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.update_resource_name", props=["C26"])
def YamlConfiguration_update_resource_name(self, old_name, new_name):
    names_updated = 0
    names_updated += self.__update_resource(resource_type=EcalcYamlKeywords.time_series, old_value=old_name, new_value=new_name)
    names_updated += self.__update_resource(resource_type=EcalcYamlKeywords.facility_inputs, old_value=old_name, new_value=new_name)
    names_updated += self.__update_resource(resource_type=EcalcYamlKeywords.models, old_value=old_name, new_value=new_name)
    if names_updated == 0:
        return YamlConfiguration.UpdateStatus.ZERO_UPDATES
    if names_updated > 1:
        return YamlConfiguration.UpdateStatus.MANY_UPDATES
    return YamlConfiguration.UpdateStatus.ONE_UPDATE


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.__update_resource", props=["C26"])
def YamlConfiguration_update_resource(self, resource_type, old_value, new_value):
    field = EcalcYamlKeywords.file
    for resource in self._internal_datamodel.get(resource_type, []):
        if not isinstance(resource, dict):
            continue
        try:
            if resource_type == EcalcYamlKeywords.models:
                curves = resource[EcalcYamlKeywords.consumer_chart_curves]
                if isinstance(curves, dict):
                    if curves[field] == old_value:
                        curves[field] = new_value
                        return 1
        except KeyError:
            pass
        try:
            curve = resource[EcalcYamlKeywords.consumer_chart_curve]
            if isinstance(curve, dict):
                if curve[field] == old_value:
                    curve[field] = new_value
                    return 1
        except KeyError:
            pass
        try:
            if resource[field] == old_value:
                resource[field] = new_value
                return 1
        except KeyError:
            pass
    return 0


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.common.EnergyUsageModelCommon", props=["C26"])
class EnergyUsageModelCommonValues:
    condition = None
    conditions = None
    power_loss_factor = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.common.EnergyUsageModelCommon.check_mutually_exclusive_condition", props=["C26"])
def EnergyUsageModelCommon_check_mutually_exclusive_condition(self):
    if self.conditions is not None and self.condition is not None:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_compressor.YamlEnergyUsageModelCompressor", props=["C26"])
class YamlEnergyUsageModelCompressorValues:
    suction_pressure = None
    discharge_pressure = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_compressor_train_multiple_streams.YamlEnergyUsageModelCompressorTrainMultipleStreams", props=["C26"])
class YamlEnergyUsageModelCompressorTrainMultipleStreamsValues:
    rate_unit = 'SM3_PER_DAY'
    interstage_control_pressure = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlCompressorSystemOperationalSetting", props=["C26"])
class YamlCompressorSystemOperationalSettingValues:
    crossover = None
    rates = None
    rate_fractions = None
    suction_pressures = None
    discharge_pressures = None
    discharge_pressure = None
    suction_pressure = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlCompressorSystemOperationalSetting.ensure_mutually_exclusive_discharge_pressures", props=["C26"])
def YamlCompressorSystemOperationalSetting_ensure_mutually_exclusive_discharge_pressures(self):
    if self.discharge_pressure is None and self.discharge_pressures is None:
        raise ValueError()
    if self.discharge_pressure is not None and self.discharge_pressures is not None:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlCompressorSystemOperationalSetting.ensure_mutually_exclusive_suction_pressures", props=["C26"])
def YamlCompressorSystemOperationalSetting_ensure_mutually_exclusive_suction_pressures(self):
    if self.suction_pressure is None and self.suction_pressures is None:
        raise ValueError()
    if self.suction_pressure is not None and self.suction_pressures is not None:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlPumpSystemOperationalSettings", props=["C26"])
class YamlPumpSystemOperationalSettingsValues:
    fluid_densities = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelCompressorSystem", props=["C26"])
class YamlEnergyUsageModelCompressorSystemValues:
    total_system_rate = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelCompressorSystem.assert_unique_names", props=["C26"])
def YamlEnergyUsageModelCompressorSystem_assert_unique_names(cls, compressors):
    unique_names = {compressor.name for compressor in compressors}
    if len(compressors) != len(unique_names):
        raise ValueError()
    return compressors


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelCompressorSystem.forbid_generic_from_input_and_unknown_stages_in_compressor_system", props=["C26"])
def YamlEnergyUsageModelCompressorSystem_forbid_generic_from_input_and_unknown_stages_in_compressor_system(self, info):
    if not info.context:
        return self
    for compressor in self.compressors:
        compressor_model = info.context['model_types'][compressor.compressor_model]
        if isinstance(compressor_model, YamlCompressorWithTurbine):
            compressor_model = info.context['model_types'][compressor_model.compressor_model]
        train = getattr(compressor_model, 'compressor_train', None)
        if not train:
            continue
        stages = getattr(train, EcalcYamlKeywords.models_type_compressor_train_stages.lower(), None)
        if stages:
            for stage in stages:
                compressor_chart = info.context['model_types'].get(stage.compressor_chart)
                if compressor_chart is None:
                    return self
                chart_type = getattr(compressor_chart, 'chart_type', None)
                if chart_type is None:
                    continue
                if chart_type == YamlChartType.GENERIC_FROM_INPUT:
                    raise ValueError()
        else:
            raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelCompressorSystem.validate_operational_settings_match_compressors", props=["C26"])
def YamlEnergyUsageModelCompressorSystem_validate_operational_settings_match_compressors(self):
    num_compressors = len(self.compressors)
    for i, setting in enumerate(self.operational_settings):
        setting_num = i + 1
        if setting.rates is not None:
            if len(setting.rates) != num_compressors:
                raise ValueError()
        if setting.rate_fractions is not None:
            if len(setting.rate_fractions) != num_compressors:
                raise ValueError()
        if setting.suction_pressures is not None:
            if len(setting.suction_pressures) != num_compressors:
                raise ValueError()
        if setting.discharge_pressures is not None:
            if len(setting.discharge_pressures) != num_compressors:
                raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelPumpSystem", props=["C26"])
class YamlEnergyUsageModelPumpSystemValues:
    fluid_density = None
    total_system_rate = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelPumpSystem.assert_unique_names", props=["C26"])
def YamlEnergyUsageModelPumpSystem_assert_unique_names(cls, pumps):
    unique_names = {pump.name for pump in pumps}
    if len(pumps) != len(unique_names):
        raise ValueError()
    return pumps


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system.YamlEnergyUsageModelPumpSystem.validate_operational_settings_match_pumps", props=["C26"])
def YamlEnergyUsageModelPumpSystem_validate_operational_settings_match_pumps(self):
    num_pumps = len(self.pumps)
    for i, setting in enumerate(self.operational_settings):
        setting_num = i + 1
        if setting.rates is not None:
            if len(setting.rates) != num_pumps:
                raise ValueError()
        if setting.rate_fractions is not None:
            if len(setting.rate_fractions) != num_pumps:
                raise ValueError()
        if setting.suction_pressures is not None:
            if len(setting.suction_pressures) != num_pumps:
                raise ValueError()
        if setting.discharge_pressures is not None:
            if len(setting.discharge_pressures) != num_pumps:
                raise ValueError()
        if setting.fluid_densities is not None:
            if len(setting.fluid_densities) != num_pumps:
                raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_direct.ConsumptionRateType", props=["C26"])
class ConsumptionRateTypeValues:
    STREAM_DAY = 'STREAM_DAY'
    CALENDAR_DAY = 'CALENDAR_DAY'


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_direct.YamlEnergyUsageModelDirectFuel", props=["C26"])
class YamlEnergyUsageModelDirectFuelValues:
    consumption_rate_type = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_direct.YamlEnergyUsageModelDirectElectricity", props=["C26"])
class YamlEnergyUsageModelDirectElectricityValues:
    consumption_rate_type = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_pump.YamlEnergyUsageModelPump", props=["C26"])
class YamlEnergyUsageModelPumpValues:
    rate = None
    suction_pressure = None
    discharge_pressure = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.yaml_electricity_consumer.YamlElectricityConsumer", props=["C26"])
class YamlElectricityConsumerValues:
    component_type = 'ELECTRICITY_CONSUMER'
    category = CategoryField(...)


@target("libecalc.presentation.yaml.yaml_types.components.legacy.yaml_electricity_consumer.YamlElectricityConsumer.check_energy_usage_models", props=["C26"])
def YamlElectricityConsumer_check_energy_usage_models(self):
    _check_multiple_energy_usage_models = validate_energy_usage_models(self.energy_usage_model, self.name)
    return self


@target("libecalc.presentation.yaml.yaml_types.components.legacy.yaml_fuel_consumer.YamlFuelConsumer", props=["C26"])
class YamlFuelConsumerValues:
    component_type = 'FUEL_CONSUMER'
    category = CategoryField(...)
    fuel = None


@target("libecalc.presentation.yaml.yaml_types.components.legacy.yaml_fuel_consumer.YamlFuelConsumer.check_energy_usage_models", props=["C26"])
def YamlFuelConsumer_check_energy_usage_models(self):
    _check_multiple_energy_usage_models = validate_energy_usage_models(self.energy_usage_model, self.name)
    return self


@target("libecalc.presentation.yaml.yaml_types.components.yaml_asset.YamlAsset", props=["C26"])
class YamlAssetValues:
    start = None


@target("libecalc.presentation.yaml.yaml_types.components.yaml_asset.YamlAsset.validate_unique_component_names", props=["C26"])
def YamlAsset_validate_unique_component_names(self, info):
    context = info.context
    if not context:
        return self
    if not context.get(YamlModelValidationContextNames.model_name):
        return self
    names = [context.get(YamlModelValidationContextNames.model_name)]
    for installation in self.installations:
        names.append(installation.name)
        for fuel_consumer in installation.fuel_consumers or []:
            names.append(fuel_consumer.name)
        for generator_set in installation.generator_sets or []:
            names.append(generator_set.name)
            for electricity_consumer in generator_set.consumers:
                names.append(electricity_consumer.name)
        for venting_emitter in installation.venting_emitters or []:
            names.append(venting_emitter.name)
    duplicated_names = get_duplicates(names)
    if len(duplicated_names) > 0:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.yaml_asset.YamlAsset.validate_unique_time_series_names", props=["C26"])
def YamlAsset_validate_unique_time_series_names(cls, collection, info):
    names = []
    for item in collection:
        names.append(item.name)
    duplicated_names = get_duplicates(names)
    if len(duplicated_names) > 0:
        raise ValueError()
    return collection


@target("libecalc.presentation.yaml.yaml_types.components.yaml_asset.YamlAsset.validate_unique_references", props=["C26"])
def YamlAsset_validate_unique_references(self):
    references = []
    for facility_input in self.facility_inputs:
        references.append(facility_input.name)
    for model in self.models:
        references.append(model.name)
    for fuel_type in self.fuel_types:
        references.append(fuel_type.name)
    references.extend(self.process_pipelines.keys())
    references.extend(self.definitions.process_units.keys())
    references.extend(self.definitions.fluids.keys())
    for process_simulation in self.process_simulations:
        references.append(process_simulation.name)
    for pump_process_simulation in self.pump_process_simulations:
        references.append(pump_process_simulation.name)
    references.extend(self.fluid_models.keys())
    references.extend(self.inlet_streams.keys())
    duplicated_references = get_duplicates(references)
    if len(duplicated_references) > 0:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.components.yaml_category_field.CategoryField", props=["C26"])
def f_CategoryField(default, validate_default=False):
    return Field(default, title='CATEGORY', description='Output category/tag.\n\n$ECALC_DOCS_KEYWORDS_URL/CATEGORY')


@target("libecalc.presentation.yaml.yaml_types.components.yaml_expression_type", props=["C26"])
class K84_constants:
    EXPRESSION_MARKER = _ExpressionMarker()


@target("libecalc.presentation.yaml.yaml_types.components.yaml_expression_type.validate_expression", props=["C26"])
def f_validate_expression(value, info):
    if info.context is None or YamlModelValidationContextNames.expression_tokens not in info.context:
        return value
    available_expression_tokens = info.context[YamlModelValidationContextNames.expression_tokens]
    unknown_tokens = []
    try:
        tokens = Expression.validate(expression=value)
        for token in tokens:
            if token.tag == TokenTag.reference and token.value not in available_expression_tokens:
                unknown_tokens.append(token.value)
        if len(unknown_tokens) > 0:
            expression_references_string = ', '.join(unknown_tokens)
            raise PydanticCustomError()
    except InvalidExpressionError as e:
        raise ValueError()
    return value


@target("libecalc.presentation.yaml.yaml_types.components.yaml_generator_set.YamlGeneratorSet", props=["C26"])
class YamlGeneratorSetValues:
    category = CategoryField(...)
    fuel = None
    cable_loss = None
    max_usage_from_shore = None


@target("libecalc.presentation.yaml.yaml_types.components.yaml_generator_set.YamlGeneratorSet.check_power_from_shore", props=["C26"])
def YamlGeneratorSet_check_power_from_shore(self):
    _check_power_from_shore_attributes = validate_generator_set_power_from_shore(cable_loss=self.cable_loss, max_usage_from_shore=self.max_usage_from_shore, category=self.category)
    return self


@target("libecalc.presentation.yaml.yaml_types.components.yaml_installation.InstallationUserDefinedCategoryType", props=["C26"])
class InstallationUserDefinedCategoryTypeValues:
    FIXED = 'FIXED'
    MOBILE = 'MOBILE'


@target("libecalc.presentation.yaml.yaml_types.components.yaml_installation.YamlInstallation", props=["C26"])
class YamlInstallationValues:
    category = CategoryField(None)
    hydrocarbon_export = 0
    fuel = None
    regularity = 1
    generator_sets = None
    fuel_consumers = None
    venting_emitters = None


@target("libecalc.presentation.yaml.yaml_types.components.yaml_installation.YamlInstallation.check_some_consumer_or_emitter", props=["C26"])
def YamlInstallation_check_some_consumer_or_emitter(self):
    if self.fuel_consumers or self.venting_emitters or self.generator_sets:
        return self
    else:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.FacilityTypeField", props=["C26"])
def f_FacilityTypeField():
    return Field(..., title='TYPE', description='Defines the type of model applied on the data in the file.\n\n$ECALC_DOCS_KEYWORDS_URL/TYPE')


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlFacilityAdjustment", props=["C26"])
class YamlFacilityAdjustmentValues:
    constant = 0
    factor = 1


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlFacilityModelBase.validate_adjustment", props=["C26"])
def YamlFacilityModelBase_validate_adjustment(cls, values):
    if isinstance(values, dict) and 'ADJUSTMENT' in values:
        raise ValueError()
    return values


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlGeneratorSetModel", props=["C26"])
class YamlGeneratorSetModelValues:
    type = FacilityTypeField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlTabularModel", props=["C26"])
class YamlTabularModelValues:
    type = FacilityTypeField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlCompressorTabularModel", props=["C26"])
class YamlCompressorTabularModelValues:
    type = FacilityTypeField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlPumpChartBase", props=["C26"])
class YamlPumpChartBaseValues:
    head_margin = 0.0
    units = UnitsField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlPumpChartSingleSpeed", props=["C26"])
class YamlPumpChartSingleSpeedValues:
    type = FacilityTypeField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model.YamlPumpChartVariableSpeed", props=["C26"])
class YamlPumpChartVariableSpeedValues:
    type = FacilityTypeField()


@target("libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model_type.YamlFacilityModelType", props=["C26"])
class YamlFacilityModelTypeValues:
    ELECTRICITY2FUEL = 'ELECTRICITY2FUEL'
    TABULAR = 'TABULAR'
    COMPRESSOR_TABULAR = 'COMPRESSOR_TABULAR'
    PUMP_CHART_SINGLE_SPEED = 'PUMP_CHART_SINGLE_SPEED'
    PUMP_CHART_VARIABLE_SPEED = 'PUMP_CHART_VARIABLE_SPEED'


@target("libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type.FuelTypeUserDefinedCategoryType", props=["C26"])
class FuelTypeUserDefinedCategoryTypeValues:
    FUEL_GAS = 'FUEL-GAS'
    DIESEL = 'DIESEL'


@target("libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type.YamlFuelType", props=["C26"])
class YamlFuelTypeValues:
    category = CategoryField(None)
    lower_heating_value = None


@target("libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type.YamlFuelType.ensure_unique_emission_names", props=["C26"])
def YamlFuelType_ensure_unique_emission_names(cls, emissions, info):
    names = [emission.name for emission in emissions]
    duplicated_names = get_duplicates(names)
    if len(duplicated_names) > 0:
        raise ValueError()
    return emissions


@target("libecalc.presentation.yaml.yaml_types.models.model_reference_validation.InvalidModelReferenceError.__init__", props=["C26"])
def InvalidModelReferenceError_init(self, model_reference):
    self.model_reference = model_reference


@target("libecalc.presentation.yaml.yaml_types.models.model_reference_validation.InvalidModelReferenceType.__init__", props=["C26"])
def InvalidModelReferenceType_init(self, model_reference, model):
    self.model = model
    super().__init__(model_reference=model_reference)


@target("libecalc.presentation.yaml.yaml_types.models.model_reference_validation.check_model_reference", props=["C26"])
def f_check_model_reference(model_reference, available_models, allowed_types):
    if model_reference not in available_models:
        raise ModelReferenceNotFound(model_reference=model_reference)
    model = available_models[model_reference]
    if model.type not in allowed_types:
        raise InvalidModelReferenceType(model_reference=model_reference, model=model)
    return model_reference


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlCurve", props=["C26"])
class YamlCurveValues:
    speed = 1


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlRateUnits", props=["C26"])
class YamlRateUnitsValues:
    AM3_PER_HOUR = 'AM3_PER_HOUR'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlHeadUnits", props=["C26"])
class YamlHeadUnitsValues:
    M = 'M'
    KJ_PER_KG = 'KJ_PER_KG'
    JOULE_PER_KG = 'JOULE_PER_KG'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlEfficiencyUnits", props=["C26"])
class YamlEfficiencyUnitsValues:
    FRACTION = 'FRACTION'
    PERCENTAGE = 'PERCENTAGE'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlUnits", props=["C26"])
class YamlUnitsValues:
    rate = YamlRateUnits.AM3_PER_HOUR
    head = YamlHeadUnits.M
    efficiency = YamlEfficiencyUnits.PERCENTAGE


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.UnitsField", props=["C26"])
def f_UnitsField():
    return Field(default_factory=lambda: YamlUnits(), title='UNITS', description='Defines the units')


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlSingleSpeedChart", props=["C26"])
class YamlSingleSpeedChartValues:
    type = YamlModelType.COMPRESSOR_CHART
    chart_type = YamlChartType.SINGLE_SPEED
    units = UnitsField()


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlVariableSpeedChart", props=["C26"])
class YamlVariableSpeedChartValues:
    type = YamlModelType.COMPRESSOR_CHART
    chart_type = YamlChartType.VARIABLE_SPEED
    units = UnitsField()


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlGenericFromInputChart", props=["C26"])
class YamlGenericFromInputChartValues:
    type = YamlModelType.COMPRESSOR_CHART
    chart_type = YamlChartType.GENERIC_FROM_INPUT
    units = UnitsField()


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart.YamlGenericFromDesignPointChart", props=["C26"])
class YamlGenericFromDesignPointChartValues:
    type = YamlModelType.COMPRESSOR_CHART
    chart_type = YamlChartType.GENERIC_FROM_DESIGN_POINT


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages.YamlControlMarginUnits", props=["C26"])
class YamlControlMarginUnitsValues:
    FRACTION = 'FRACTION'
    PERCENTAGE = 'PERCENTAGE'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages.YamlCompressorStageWithMarginAndPressureDrop", props=["C26"])
class YamlCompressorStageWithMarginAndPressureDropValues:
    pressure_drop_ahead_of_stage = 0.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages.YamlCompressorStageMultipleStreams", props=["C26"])
class YamlCompressorStageMultipleStreamsValues:
    stream = None
    interstage_control_pressure = None


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages.YamlUnknownCompressorStages", props=["C26"])
class YamlUnknownCompressorStagesValues:
    maximum_pressure_ratio_per_stage = None


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains", props=["C26"])
class K121_constants:
    YamlCompatibleTrainsControlMargin = [EcalcYamlKeywords.models_type_compressor_train_single_speed, EcalcYamlKeywords.models_type_compressor_train_variable_speed, EcalcYamlKeywords.models_type_compressor_train_variable_speed_multiple_streams_and_pressures]
    YamlCompatibleTrainsPressureDropAheadOfStage = [EcalcYamlKeywords.models_type_compressor_train_single_speed, EcalcYamlKeywords.models_type_compressor_train_variable_speed, EcalcYamlKeywords.models_type_compressor_train_variable_speed_multiple_streams_and_pressures]


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlCompressorTrainBase", props=["C26"])
class YamlCompressorTrainBaseValues:
    maximum_power = None


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlSingleSpeedCompressorTrain", props=["C26"])
class YamlSingleSpeedCompressorTrainValues:
    pressure_control = YamlPressureControl.DOWNSTREAM_CHOKE
    maximum_discharge_pressure = None
    calculate_max_rate = False
    power_adjustment_constant = 0.0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlSingleSpeedCompressorTrain.to_dto", props=["C26"])
def YamlSingleSpeedCompressorTrain_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlVariableSpeedCompressorTrain", props=["C26"])
class YamlVariableSpeedCompressorTrainValues:
    pressure_control = YamlPressureControl.DOWNSTREAM_CHOKE
    calculate_max_rate = False
    power_adjustment_constant = 0.0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlVariableSpeedCompressorTrain.to_dto", props=["C26"])
def YamlVariableSpeedCompressorTrain_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlSimplifiedVariableSpeedCompressorTrain", props=["C26"])
class YamlSimplifiedVariableSpeedCompressorTrainValues:
    calculate_max_rate = False
    power_adjustment_constant = 0.0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlSimplifiedVariableSpeedCompressorTrain.to_dto", props=["C26"])
def YamlSimplifiedVariableSpeedCompressorTrain_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlSimplifiedVariableSpeedCompressorTrain.check_compressor_chart", props=["C26"])
def YamlSimplifiedVariableSpeedCompressorTrain_check_compressor_chart(self, info):
    if info.context is not None:
        train = info.context['model_types'][self.name].compressor_train
        allowed_charts_simplified_trains = [YamlChartType.GENERIC_FROM_INPUT.value, YamlChartType.GENERIC_FROM_DESIGN_POINT.value]
        if hasattr(train, EcalcYamlKeywords.models_type_compressor_train_stages.lower()):
            for stage in train.stages:
                compressor_chart = info.context['model_types'][stage.compressor_chart]
                chart_type = getattr(compressor_chart, 'chart_type', None)
                if chart_type is None:
                    continue
                if chart_type not in allowed_charts_simplified_trains:
                    raise ValueError()
        else:
            compressor_chart = info.context['model_types'][train.compressor_chart]
            if compressor_chart.chart_type not in allowed_charts_simplified_trains:
                raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures", props=["C26"])
class YamlVariableSpeedCompressorTrainMultipleStreamsAndPressuresValues:
    pressure_control = YamlPressureControl.DOWNSTREAM_CHOKE
    power_adjustment_constant = 0.0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures.to_dto", props=["C26"])
def YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains.YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures.check_interstage_control_pressure", props=["C26"])
def YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures_check_interstage_control_pressure(self):
    count = len([stage.interstage_control_pressure for stage in self.stages if stage.interstage_control_pressure is not None])
    if count > 1:
        raise ValueError()
    return self


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_with_turbine.YamlCompressorWithTurbine", props=["C26"])
class YamlCompressorWithTurbineValues:
    power_adjustment_constant = 0.0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_compressor_with_turbine.YamlCompressorWithTurbine.to_dto", props=["C26"])
def YamlCompressorWithTurbine_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_enums.YamlModelType", props=["C26"])
class YamlModelTypeValues:
    FLUID = 'FLUID'
    COMPRESSOR_CHART = 'COMPRESSOR_CHART'
    TURBINE = 'TURBINE'
    SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN = 'SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN'
    SINGLE_SPEED_COMPRESSOR_TRAIN = 'SINGLE_SPEED_COMPRESSOR_TRAIN'
    VARIABLE_SPEED_COMPRESSOR_TRAIN = 'VARIABLE_SPEED_COMPRESSOR_TRAIN'
    VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES = 'VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES'
    COMPRESSOR_WITH_TURBINE = 'COMPRESSOR_WITH_TURBINE'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_enums.YamlChartType", props=["C26"])
class YamlChartTypeValues:
    SINGLE_SPEED = 'SINGLE_SPEED'
    VARIABLE_SPEED = 'VARIABLE_SPEED'
    GENERIC_FROM_INPUT = 'GENERIC_FROM_INPUT'
    GENERIC_FROM_DESIGN_POINT = 'GENERIC_FROM_DESIGN_POINT'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_enums.YamlPressureControl", props=["C26"])
class YamlPressureControlValues:
    DOWNSTREAM_CHOKE = 'DOWNSTREAM_CHOKE'
    UPSTREAM_CHOKE = 'UPSTREAM_CHOKE'
    INDIVIDUAL_ASV_PRESSURE = 'INDIVIDUAL_ASV_PRESSURE'
    INDIVIDUAL_ASV_RATE = 'INDIVIDUAL_ASV_RATE'
    COMMON_ASV = 'COMMON_ASV'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlEosModel", props=["C26"])
class YamlEosModelValues:
    SRK = 'SRK'
    PR = 'PR'
    GERG_SRK = 'GERG_SRK'
    GERG_PR = 'GERG_PR'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlFluidModelType", props=["C26"])
class YamlFluidModelTypeValues:
    PREDEFINED = 'PREDEFINED'
    COMPOSITION = 'COMPOSITION'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlPredefinedFluidType", props=["C26"])
class YamlPredefinedFluidTypeValues:
    ULTRA_DRY = 'ULTRA_DRY'
    DRY = 'DRY'
    MEDIUM = 'MEDIUM'
    RICH = 'RICH'
    ULTRA_RICH = 'ULTRA_RICH'


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlPredefinedFluidModel", props=["C26"])
class YamlPredefinedFluidModelValues:
    eos_model = YamlEosModel.SRK
    fluid_model_type = YamlFluidModelType.PREDEFINED
    gas_type = None


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlPredefinedFluidModel.to_dto", props=["C26"])
def YamlPredefinedFluidModel_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlComposition", props=["C26"])
class YamlCompositionValues:
    CO2 = 0.0
    ethane = 0.0
    i_butane = 0.0
    i_pentane = 0.0
    n_butane = 0.0
    n_hexane = 0.0
    n_pentane = 0.0
    nitrogen = 0.0
    propane = 0.0
    water = 0.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlCompositionFluidModel", props=["C26"])
class YamlCompositionFluidModelValues:
    eos_model = YamlEosModel.SRK
    fluid_model_type = YamlFluidModelType.COMPOSITION
    type = YamlModelType.FLUID


@target("libecalc.presentation.yaml.yaml_types.models.yaml_fluid.YamlCompositionFluidModel.to_dto", props=["C26"])
def YamlCompositionFluidModel_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.models.yaml_turbine.YamlTurbine", props=["C26"])
class YamlTurbineValues:
    power_adjustment_constant = 0
    power_adjustment_factor = 1.0


@target("libecalc.presentation.yaml.yaml_types.models.yaml_turbine.YamlTurbine.to_dto", props=["C26"])
def YamlTurbine_to_dto(self):
    raise NotImplementedError


@target("libecalc.presentation.yaml.yaml_types.process.yaml_fluid_definitions.YamlFluidComposition", props=["C26"])
class YamlFluidCompositionValues:
    water = 0.0
    nitrogen = 0.0
    CO2 = 0.0
    ethane = 0.0
    propane = 0.0
    i_butane = 0.0
    n_butane = 0.0
    i_pentane = 0.0
    n_pentane = 0.0
    n_hexane = 0.0


@target("libecalc.presentation.yaml.yaml_types.process.yaml_fluid_definitions.YamlPredefinedFluidDefinition", props=["C26"])
class YamlPredefinedFluidDefinitionValues:
    eos_model = YamlEosModel.SRK
    gas_type = YamlPredefinedFluidType.MEDIUM


@target("libecalc.presentation.yaml.yaml_types.process.yaml_fluid_definitions.YamlCompositionFluidDefinition", props=["C26"])
class YamlCompositionFluidDefinitionValues:
    eos_model = YamlEosModel.SRK


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline.YamlProcessUnitInstance", props=["C26"])
class YamlProcessUnitInstanceValues:
    name = None


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline.PipelineEventAction", props=["C26"])
class PipelineEventActionValues:
    CHANGE = 'CHANGE'
    ADD = 'ADD'
    REMOVE = 'REMOVE'


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline.PipelineEventChangeType", props=["C26"])
class PipelineEventChangeTypeValues:
    REBUNDLE = 'REBUNDLE'


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline.YamlProcessPipeline", props=["C26"])
class YamlProcessPipelineValues:
    events = []


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_simulation.YamlEcalcEvent", props=["C26"])
class YamlEcalcEventValues:
    description = None


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_simulation.YamlProcessEvent", props=["C26"])
class YamlProcessEventValues:
    description = None


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_simulation.YamlProcessConstraint", props=["C26"])
class YamlProcessConstraintValues:
    process_unit = None


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_simulation.YamlPumpProcessModel", props=["C26"])
class YamlPumpProcessModelValues:
    minimum_flow_rate = None


@target("libecalc.presentation.yaml.yaml_types.process.yaml_process_units.YamlCompressorChart", props=["C26"])
class YamlCompressorChartValues:
    units = UnitsField()


@target("libecalc.presentation.yaml.yaml_types.process.yaml_stream_distribution.YamlCommonStreamSetting", props=["C26"])
class YamlCommonStreamSettingValues:
    overflow = None


@target("libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream.YamlStreamRateUnit", props=["C26"])
class YamlStreamRateUnitValues:
    SM3_PER_DAY = 'SM3_PER_DAY'


@target("libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream.YamlInletStreamRate", props=["C26"])
class YamlInletStreamRateValues:
    type = RateType.STREAM_DAY
    condition = None
    conditions = None


@target("libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream.YamlInletStreamRate.validate_condition", props=["C26"])
def YamlInletStreamRate_validate_condition(self):
    self._check_mutually_exclusive_condition()
    self._check_non_empty_conditions()
    return self


@target("libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream.YamlInletStreamRate._check_mutually_exclusive_condition", props=["C26"])
def YamlInletStreamRate_check_mutually_exclusive_condition(self):
    if self.conditions is not None and self.condition is not None:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream.YamlInletStreamRate._check_non_empty_conditions", props=["C26"])
def YamlInletStreamRate_check_non_empty_conditions(self):
    if self.conditions is not None and len(self.conditions) == 0:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series.YamlTimeSeriesCollectionBase", props=["C26"])
class YamlTimeSeriesCollectionBaseValues:
    influence_time_vector = True


@target("libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series.YamlMiscellaneousTimeSeriesCollection", props=["C26"])
class YamlMiscellaneousTimeSeriesCollectionValues:
    extrapolation = False


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRateUnits", props=["C26"])
class YamlEmissionRateUnitsValues:
    KILO_PER_DAY = 'KG_PER_DAY'
    TONS_PER_DAY = 'TONS_PER_DAY'


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRateUnits.to_unit", props=["C26"])
def YamlEmissionRateUnits_to_unit(self):
    if self == YamlEmissionRateUnits.KILO_PER_DAY:
        return Unit.KILO_PER_DAY
    elif self == YamlEmissionRateUnits.TONS_PER_DAY:
        return Unit.TONS_PER_DAY
    assert_never(self)


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRate", props=["C26"])
class YamlEmissionRateValues:
    unit = YamlEmissionRateUnits.KILO_PER_DAY
    type = RateType.STREAM_DAY
    condition = None
    conditions = None


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRate.validate_condition", props=["C26"])
def YamlEmissionRate_validate_condition(self):
    self._check_mutually_exclusive_condition()
    self._check_non_empty_conditions()
    return self


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRate._check_mutually_exclusive_condition", props=["C26"])
def YamlEmissionRate_check_mutually_exclusive_condition(self):
    if self.conditions is not None and self.condition is not None:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlEmissionRate._check_non_empty_conditions", props=["C26"])
def YamlEmissionRate_check_non_empty_conditions(self):
    if self.conditions is not None and len(self.conditions) == 0:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilRateUnits", props=["C26"])
class YamlOilRateUnitsValues:
    STANDARD_CUBIC_METER_PER_DAY = 'SM3_PER_DAY'


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilRateUnits.to_unit", props=["C26"])
def YamlOilRateUnits_to_unit(self):
    if self == YamlOilRateUnits.STANDARD_CUBIC_METER_PER_DAY:
        return Unit.STANDARD_CUBIC_METER_PER_DAY
    assert_never(self)


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilVolumeRate", props=["C26"])
class YamlOilVolumeRateValues:
    unit = YamlOilRateUnits.STANDARD_CUBIC_METER_PER_DAY
    type = RateType.STREAM_DAY
    condition = None
    conditions = None


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilVolumeRate.validate_conditions", props=["C26"])
def YamlOilVolumeRate_validate_conditions(self):
    self._check_mutually_exclusive_condition()
    self._check_non_empty_conditions()
    return self


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilVolumeRate._check_mutually_exclusive_condition", props=["C26"])
def YamlOilVolumeRate_check_mutually_exclusive_condition(self):
    if self.conditions is not None and self.condition is not None:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.yaml_stream_conditions.YamlOilVolumeRate._check_non_empty_conditions", props=["C26"])
def YamlOilVolumeRate_check_non_empty_conditions(self):
    if self.conditions is not None and len(self.conditions) == 0:
        raise ValueError()


@target("libecalc.presentation.yaml.yaml_types.yaml_temporal_model.discriminate_temporal_model", props=["C26"])
def f_discriminate_temporal_model(v):
    if isinstance(v, dict):
        try:
            if is_temporal_model(v):
                return 'temporal'
            else:
                return 'single'
        except InvalidDateException:
            return 'temporal'
    return 'single'


@target("libecalc.presentation.yaml.yaml_validators.file_validators.file_exists_validator", props=["C26"])
def f_file_exists_validator(value, info):
    if not info.context:
        return value
    if value not in info.context[YamlModelValidationContextNames.resource_file_names]:
        raise PydanticCustomError()
    return value


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource.get_headers", props=["C26"])
def MemoryResource_get_headers(self):
    return self.headers


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource.get_column", props=["C26"])
def MemoryResource_get_column(self, header):
    try:
        header_index = next((i for i, h in enumerate(self.headers) if h.lower() == header.lower()), None)
        if header_index is None:
            raise HeaderNotFoundException(header=header)
        return self.data[header_index]
    except IndexError as e:
        raise ColumnNotFoundException(header=header)


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource.validate", props=["C26"])
def MemoryResource_validate(self, allow_nans):
    self._validate_headers(self.headers)
    if not allow_nans:
        self._validate_not_nan(self.data, self.headers)
    return self


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource.from_string", props=["C26"])
def MemoryResource_from_string(cls, csv_data, allow_nans):
    try:
        df_resource = pd.read_csv(StringIO(csv_data), comment='#', float_precision='round_trip', skipinitialspace=True, thousands=' ')
    except pd.errors.ParserError as e:
        msg = str(e)
        if 'Expected' in msg:
            msg = 'Expected' + msg.split('Expected', 1)[1]
        raise InvalidResourceException(title='Invalid CSV data', message=msg)
    except ValueError as e:
        raise InvalidResourceException(title='Invalid resource', message=str(e))
    headers = df_resource.columns.str.strip().tolist()
    cls._validate_headers(headers)
    if not allow_nans:
        tmp_data = df_resource.T.values.tolist()
        cls._validate_not_nan(tmp_data, headers)
    if df_resource.empty:
        data = [[] * len(headers)]
    else:
        data = df_resource.T.values.tolist()
    return MemoryResource(headers=headers, data=data)


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource.from_path", props=["C26"])
def MemoryResource_from_path(cls, path, allow_nans):
    with open(path) as f:
        return MemoryResource.from_string(f.read(), allow_nans=allow_nans)


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource._validate_headers", props=["C26"])
def MemoryResource_validate_headers(headers):
    for header in headers:
        if not re.match('^[A-Za-z][A-Za-z0-9_.,\\-\\s#+:/]*$', header):
            raise InvalidHeaderException('Each header value must start with a letter in the english alphabet (a-zA-Z). Header may only contain letters, spaces, numbers, or any of the following characters [ _ - # + : . , /].')
        if re.match('^Unnamed: \\d+$', header):
            raise InvalidHeaderException(message='One or more headers are missing in resource')


@target("libecalc.presentation.yaml.yaml_entities.MemoryResource._validate_not_nan", props=["C26"])
def MemoryResource_validate_not_nan(rows, headers=None):
    err_header = ''
    for index_col, row in enumerate(rows):
        for index_row, item in enumerate(row):
            if isinstance(item, float) and math.isnan(item):
                if headers is not None:
                    err_header = headers[index_col]
                raise InvalidColumnException(header=err_header, message='CSV file contains empty values. All headers must be associated with a valid column value.', row_index=index_row)


@target("libecalc.presentation.yaml.yaml_entities.ResourceStream.read", props=["C26"])
def ResourceStream_read(self, *args, **kwargs):
    return self.stream.read(*args, **kwargs)


@target("libecalc.presentation.yaml.validation_errors", props=["C26"])
class K190_constants:
    CUSTOM_MESSAGES = {'missing': 'This keyword is missing, it is required', 'extra_forbidden': 'This is not a valid keyword', 'string_pattern_mismatch': 'The string/name contains illegal characters. Allowed characters are: {pattern}. A good start can be to check the string/name for space, which is not allowed.', 'union_tag_not_found': 'The keyword {discriminator} is missing, it is required.'}
    date_repr_pattern = 'datetime\\.date\\(([0-9]{4}),\\s([0-9]{1,2}),\\s([0-9]{1,2})\\)'
    date_repr_regex = re.compile(date_repr_pattern)
    datetime_repr_regex = re.compile('datetime\\.datetime\\([0-9]{4}(,\\s[0-9]+){2,6}\\)')


@target("libecalc.presentation.yaml.validation_errors.Location.is_empty", props=["C26"])
def Location_is_empty(self):
    return len(self.keys) == 0


@target("libecalc.presentation.yaml.validation_errors.Location.as_dot_separated", props=["C26"])
def Location_as_dot_separated(self):
    path = ''
    for i, x in enumerate(self.keys):
        if isinstance(x, str):
            if i > 0:
                path += '.'
            path += x
        elif isinstance(x, int):
            path += f'[{x}]'
        elif isinstance(x, date):
            path += f'.{self._date_to_string(x)}'
        else:
            raise TypeError()
    return path


@target("libecalc.presentation.yaml.validation_errors.Location._date_to_string", props=["C26"])
def Location_date_to_string(cls, d):
    return d.strftime('%Y-%m-%d')


@target("libecalc.presentation.yaml.validation_errors.Location._parse_date", props=["C26"])
def Location_parse_date(cls, key):
    date_matches = date_repr_regex.fullmatch(key)
    try:
        year, month, day = date_matches.groups()
        return date(int(year), int(month), int(day))
    except ValueError:
        return key


@target("libecalc.presentation.yaml.validation_errors.Location._parse_key", props=["C26"])
def Location_parse_key(cls, key):
    if isinstance(key, str) and date_repr_regex.fullmatch(key) is not None:
        return cls._parse_date(key)
    if isinstance(key, str) and datetime_repr_regex.fullmatch(key) is not None:
        return datetime(*(int(part) for part in re.findall("[0-9]+", key)))
    return key


@target("libecalc.presentation.yaml.validation_errors.Location.from_pydantic_loc", props=["C26"])
def Location_from_pydantic_loc(cls, loc):
    return cls([cls._parse_key(key) for key in loc])


@target("libecalc.presentation.yaml.validation_errors.dict_node_representer", props=["C26"])
def f_dict_node_representer(dumper, data):
    return dumper.represent_dict(dict(data))


@target("libecalc.presentation.yaml.validation_errors.list_node_representer", props=["C26"])
def f_list_node_representer(dumper, data):
    return dumper.represent_list(list(data))


@target("libecalc.presentation.yaml.validation_errors.ModelValidationError", props=["C26"])
class ModelValidationErrorValues:
    data = None
    name = None


@target("libecalc.presentation.yaml.validation_errors.ModelValidationError.yaml", props=["C26"])
def ModelValidationError_yaml(self):
    if self.data is None:
        return None
    return yaml.dump(self.data, sort_keys=False).strip()


@target("libecalc.presentation.yaml.validation_errors.remove_prefix_if_exists", props=["C26"])
def f_remove_prefix_if_exists(prefix, message):
    if message.startswith(prefix):
        return message[len(prefix):]
    else:
        return message


@target("libecalc.presentation.yaml.validation_errors.custom_errors", props=["C26"])
def f_custom_errors(e):
    new_errors = []
    for error in e.errors():
        if error['type'] == 'assertion_error':
            error['msg'] = remove_prefix_if_exists(prefix='Assertion failed, ', message=error['msg'])
        if error['type'] == 'value_error':
            error['msg'] = remove_prefix_if_exists(prefix='Value error, ', message=error['msg'])
        custom_message = CUSTOM_MESSAGES.get(error['type'])
        if custom_message:
            ctx = error.get('ctx')
            error['msg'] = custom_message.format(**ctx) if ctx else custom_message
        new_errors.append(error)
    return new_errors


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.__init__", props=["C26"])
def ModelValidationException_init(self, errors):
    self._errors = errors
    super().__init__(title='Invalid model', message='Model is not valid')


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.error_count", props=["C26"])
def ModelValidationException_error_count(self):
    return len(self._errors)


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.errors", props=["C26"])
def ModelValidationException_errors(self):
    return self._errors


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.from_pydantic", props=["C26"])
def ModelValidationException_from_pydantic(cls, validation_error, file_context):
    model_validation_errors = []
    for error in custom_errors(e=validation_error):
        model_validation_errors.append(ModelValidationError(message=error['msg'], location=Location.from_pydantic_loc(error['loc']), file_context=file_context))
    return cls(errors=model_validation_errors)


@target("libecalc.presentation.yaml.file_context.FileContext", props=["C26"])
class FileContextValues:
    start = None
    end = None


@target("libecalc.presentation.yaml.file_configuration_service.FileConfigurationService.__init__", props=["C26"])
def FileConfigurationService_init(self, configuration_path):
    self._configuration_path = configuration_path


@target("libecalc.presentation.yaml.file_configuration_service.FileConfigurationService.get_configuration", props=["C26"])
def FileConfigurationService_get_configuration(self):
    with open(self._configuration_path) as configuration_file:
        try:
            main_resource = ResourceStream(name=self._configuration_path.stem, stream=configuration_file)
            main_yaml_model = YamlConfiguration.Builder.get_yaml_reader(ReaderType.PYYAML).get_validator(main_yaml=main_resource, enable_include=True, base_dir=self._configuration_path.parent)
            return main_yaml_model
        except YamlError as e:
            location = Location(keys=[])
            if isinstance(e, DuplicateKeyError):
                location = Location(keys=[e.key])
            raise ModelValidationException(errors=[ModelValidationError(location=location, message=e.problem, file_context=e.file_context, data=None)])


@target("libecalc.common.discriminator_fallback.DiscriminatorWithFallback", props=["C26"])
def f_DiscriminatorWithFallback(discriminator_alias, discriminator_fallback):

    def fallback_discriminator(data):
        if isinstance(data, BaseModel):
            return data
        if not isinstance(data, dict):
            raise ValueError()
        if discriminator_alias not in data:
            data[discriminator_alias] = discriminator_fallback
        return data
    return BeforeValidator(fallback_discriminator)
