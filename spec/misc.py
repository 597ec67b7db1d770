# Reference equations (parsed by the checker, never executed).
import numpy as np
import os
from functools import wraps
from pathlib import Path
from libecalc.common.decorators.capturer import save
from libecalc.presentation.yaml.file_context import FileContext, FileMark
from libecalc.presentation.yaml.yaml_models.exceptions import DuplicateKeyError, YamlError
from libecalc.dto.utils.validators import COMPONENT_NAME_PATTERN
import yaml
from dataclasses import dataclass
from textwrap import indent
from libecalc.presentation.yaml.validation_errors import Location, ModelValidationError, custom_errors
import re
from collections.abc import Hashable
from datetime import datetime
from libecalc.common.component_info.component_level import ComponentLevel
from libecalc.common.component_type import ComponentType
from libecalc.common.datetime.utils import DateTimeFormats
from libecalc.common.ddd.entity import Entity
from libecalc.common.errors.exceptions import EcalcErrorType, ResourceFileMark
from libecalc.common.list.list_utils import array_to_list
from libecalc.common.temporal_model import _get_key_string, _get_keys_message
from libecalc.common.units import Unit
from libecalc.common.version import Version
from libecalc.domain.process.core.results import TurbineResult
from libecalc.presentation.yaml.yaml_entities import ResourceStream
from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel
from libecalc.presentation.yaml.yaml_models.yaml_model import ReaderType
from libecalc.presentation.yaml.yaml_node import YamlDict, YamlList, _create_node_class
from libecalc.presentation.yaml.yaml_types.models.model_reference_validation import InvalidModelReferenceType, ModelReferenceNotFound, check_model_reference
from libecalc.presentation.yaml.yaml_types.models.yaml_enums import YamlModelType
from libecalc.presentation.yaml.yaml_validation_context import YamlModelValidationContextNames
from pydantic_core import PydanticCustomError
from scipy.interpolate import interp1d
VERSION_FORMAT = '^(\\d+)(\\.\\d+)?(\\.\\d+)?$'
__version__ = '13.11.0'


@target("libecalc.common.datetime.utils.DateTimeFormats", props=["C15", "C12"])
class DateTimeFormatsValues:
    date_format_iso_8601 = '%Y-%m-%d'
    date_format_iso_8601_no_dash = '%Y%m%d'
    date_format_alternative_dd_mm_yyyy = '%d.%m.%Y'
    time_format = '%H:%M:%S'


@target("libecalc.common.datetime.utils.DateTimeFormats.get_format", props=["C15", "C12"])
def DateTimeFormats_get_format(format_number=0):
    if format_number == 0:
        date_format = DateTimeFormats.date_format_iso_8601.value
    elif format_number == 1:
        date_format = DateTimeFormats.date_format_iso_8601_no_dash.value
    elif format_number == 2:
        date_format = DateTimeFormats.date_format_alternative_dd_mm_yyyy.value
    else:
        date_format = DateTimeFormats.date_format_iso_8601
    return f'{date_format} {DateTimeFormats.time_format.value}'


@target("libecalc.common.ddd.entity.Entity.__eq__", props=["C20", "C25"])
def Entity_eq(self, other):
    if other is None:
        return False
    if not isinstance(other, Entity):
        raise TypeError()
    return type(self) is type(other) and self.get_id() == other.get_id()


@target("libecalc.common.ddd.entity.Entity.__hash__", props=["C20", "C25"])
def Entity_hash(self):
    return hash(self.get_id())


@target("libecalc.common.string.string_utils.get_duplicates", props=["C26", "C25"])
def f_get_duplicates[TItem: Hashable](names):
    seen = set()
    duplicates = set()
    for name in names:
        if name in seen:
            duplicates.add(name)
        else:
            seen.add(name)
    return duplicates


@target("libecalc.common.string.string_utils.generate_id", props=["C26", "C25"])
def f_generate_id(*args):
    return '-'.join(args)


@target("libecalc.common.string.string_utils.to_camel_case", props=["C26", "C25"])
def f_to_camel_case(string):
    string_split = string.replace('__', '_').split('_')
    string_split = [word for word in string_split if len(word) > 0]
    return string_split[0] + ''.join((word[0].upper() + word[1:] for word in string_split[1:]))


@target("libecalc.common.version.Version", props=["C15"])
class VersionValues:
    major = 0
    minor = 0
    patch = 0


@target("libecalc.common.version.Version.__init__", props=["C15"])
def Version_init(self, major=0, minor=0, patch=0):
    super().__init__()
    self.major = major
    self.minor = minor
    self.patch = patch


@target("libecalc.common.version.Version.from_string", props=["C15"])
def Version_from_string(cls, version_string):
    if version_string is None:
        return cls()
    if version_string.lower().startswith('v'):
        version_string = version_string[1:]
    pattern = re.compile(VERSION_FORMAT)
    match = pattern.match(version_string)
    if match is None:
        return cls()
    if len(match.groups()):
        major = int(match[1]) if match[1] is not None else 0
        minor = int(match[2][1:]) if match[2] is not None else 0
        patch = int(match[3][1:]) if match[3] is not None else 0
        return cls(major=major, minor=minor, patch=patch)
    else:
        return cls()


@target("libecalc.common.version.Version._version_tuple", props=["C15"])
def Version_version_tuple(self):
    return (self.major, self.minor, self.patch)


@target("libecalc.common.version.Version.__gt__", props=["C15"])
def Version_gt(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple > other._version_tuple


@target("libecalc.common.version.Version.__ge__", props=["C15"])
def Version_ge(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple >= other._version_tuple


@target("libecalc.common.version.Version.__lt__", props=["C15"])
def Version_lt(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple < other._version_tuple


@target("libecalc.common.version.Version.__le__", props=["C15"])
def Version_le(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple <= other._version_tuple


@target("libecalc.common.version.Version.__eq__", props=["C15"])
def Version_eq(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple == other._version_tuple


@target("libecalc.common.version.Version.__ne__", props=["C15"])
def Version_ne(self, other):
    if not isinstance(other, Version):
        return NotImplemented
    return self._version_tuple != other._version_tuple


@target("libecalc.common.component_type.ComponentType", props=["C12"])
class ComponentTypeValues:
    ASSET = 'ASSET'
    INSTALLATION = 'INSTALLATION'
    GENERATOR_SET = 'GENERATOR_SET'
    COMPRESSOR_SYSTEM = 'COMPRESSOR_SYSTEM'
    PUMP_SYSTEM = 'PUMP_SYSTEM'
    COMPRESSOR = 'COMPRESSOR'
    PUMP = 'PUMP'
    GENERIC = 'GENERIC'
    VENTING_EMITTER = 'VENTING_EMITTER'


@target("libecalc.common.component_type.ComponentType.__lt__", props=["C12"])
def ComponentType_lt(self, other):
    if self == other:
        return False
    for elem in ComponentType:
        if self == elem:
            return True
        elif other == elem:
            return False


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.Turbine.__post_init__", props=["C24"])
def Turbine_post_init(self):
    if self.fuel_values is not None and self.power_values is not None and (len(self.fuel_values) == len(self.power_values)):
        self.fuel_to_power_function = interp1d(self.fuel_values, self.power_values, fill_value=(0, np.nan), bounds_error=False)
    else:
        self.fuel_to_power_function = None


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.Turbine.calculate_turbine_power_usage", props=["C24"])
def Turbine_calculate_turbine_power_usage(self, fuel_usage_values):
    if self.fuel_to_power_function is not None and fuel_usage_values is not None:
        load = self.fuel_to_power_function(fuel_usage_values)
        return TurbineResult(efficiency=array_to_list(np.ones_like(fuel_usage_values)), load=array_to_list(load), load_unit=Unit.MEGA_WATT, energy_usage=array_to_list(fuel_usage_values), energy_usage_unit=Unit.STANDARD_CUBIC_METER_PER_DAY, exceeds_maximum_load=array_to_list(np.isnan(load)))
    return None


@target("libecalc.presentation.yaml.domain.container_info.ContainerInfo.component_level", props=["C12"])
def ContainerInfo_component_level(self):
    if self.component_type == ComponentType.ASSET:
        return ComponentLevel.ASSET
    elif self.component_type == ComponentType.INSTALLATION:
        return ComponentLevel.INSTALLATION
    elif self.component_type == ComponentType.GENERATOR_SET:
        return ComponentLevel.GENERATOR_SET
    elif self.component_type in [ComponentType.COMPRESSOR_SYSTEM, ComponentType.PUMP_SYSTEM]:
        return ComponentLevel.SYSTEM
    else:
        return ComponentLevel.CONSUMER


@target("libecalc.presentation.yaml.domain.variable.Variable.__init__", props=["C07", "C25"])
def Variable_init(self, reference_id, name, definition, expression_evaluator):
    self._reference_id = reference_id
    self._name = name
    self._definition = definition
    self._expression_evaluator = expression_evaluator


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.SafeLineLoader.construct_yaml_map", props=["C26"])
def SafeLineLoader_construct_yaml_map(self, node):
    obj, = super().construct_yaml_map(node)
    return YamlDict(obj, start_mark=node.start_mark, end_mark=node.end_mark)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.SafeLineLoader.construct_yaml_seq", props=["C26"])
def SafeLineLoader_construct_yaml_seq(self, node):
    obj, = super().construct_yaml_seq(node)
    return YamlList(obj, start_mark=node.start_mark, end_mark=node.end_mark)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.IncludeConstructor.__init__", props=["C26"])
def IncludeConstructor_init(self, base_dir=None, resources=None):
    self._base_dir = base_dir
    self._resources = resources if resources else {}


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.IncludeConstructor.__call__", props=["C26"])
def IncludeConstructor_call(self, loader, node):
    resource_name = str(loader.construct_scalar(node=node))
    if self._resources:
        resource_stream = self._resources[resource_name]
        resource_stream.seek(0)
        yaml_resource = ResourceStream(stream=resource_stream, name=resource_name)
        yaml_data = PyYamlYamlModel._read_yaml_helper(yaml_file=yaml_resource, resources=self._resources, loader=loader.__class__, enable_include=True)
    elif self._base_dir:
        resource_path = self._base_dir / str(resource_name)
        with open(resource_path) as resource_file:
            yaml_resource = ResourceStream(name=resource_path.name, stream=resource_file)
            yaml_data = PyYamlYamlModel._read_yaml_helper(yaml_file=yaml_resource, loader=loader.__class__, enable_include=True, base_dir=self._base_dir)
    else:
        raise ValueError()
    return yaml_data


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.IndentationDumper.increase_indent", props=["C26"])
def IndentationDumper_increase_indent(self, flow=False, indentless=False):
    return super().increase_indent(flow, False)


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.YamlReader.__init__", props=["C26"])
def YamlReader_init(self, loader, enable_include=True, base_dir=None, resources=None):
    self.__loader = loader
    self.__include_constructor = PyYamlYamlModel.IncludeConstructor(base_dir=base_dir, resources=resources) if enable_include and (base_dir or resources) else None


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.Builder.get_yaml_reader", props=["C26"])
def Builder_get_yaml_reader(reader_type):
    if reader_type == ReaderType.RUAMEL:
        from libecalc.presentation.yaml.yaml_models.ruamel_yaml_model import RuamelYamlModel
        return RuamelYamlModel
    elif reader_type == ReaderType.PYYAML:
        from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel
        return PyYamlYamlModel
    raise NotImplementedError()


@target("libecalc.presentation.yaml.yaml_models.yaml_model.YamlConfiguration.UpdateStatus", props=["C26"])
class UpdateStatusValues:
    ZERO_UPDATES = 'Zero Updates'
    ONE_UPDATE = 'One Update'
    MANY_UPDATES = 'Many Updates'


@target("libecalc.presentation.yaml.yaml_node", props=["C26"])
class K41_constants:
    YamlDict = _create_node_class(dict)
    YamlList = _create_node_class(list)


@target("libecalc.presentation.yaml.yaml_node._create_node_class", props=["C26"])
def f_create_node_class(cls):

    class node_class(cls):

        def __init__(self, *args, **kwargs):
            cls.__init__(self, *args)
            self.start_mark = kwargs.get('start_mark')
            self.end_mark = kwargs.get('end_mark')

        def __new__(self, *args, **kwargs):
            return cls.__new__(self, *args)
    node_class.__name__ = f'{cls.__name__}_node'
    return node_class


@target("libecalc.presentation.yaml.yaml_types.models.model_reference_validation.check_field_model_reference", props=["C26"])
def f_check_field_model_reference(allowed_types):
    allowed_model_types = [allowed_type for allowed_type in allowed_types if allowed_type != YamlModelType.COMPRESSOR_WITH_TURBINE]

    def check_model_reference_wrapper(model_reference, info):
        if not info.context:
            return model_reference
        models_context = info.context.get(YamlModelValidationContextNames.model_types)
        try:
            try:
                model_reference = check_model_reference(model_reference, available_models=models_context, allowed_types=allowed_types)
            except InvalidModelReferenceType as e:
                raise PydanticCustomError()
            model = models_context[model_reference]
            if model.type == YamlModelType.COMPRESSOR_WITH_TURBINE:
                try:
                    check_model_reference(model.compressor_model, allowed_types=allowed_model_types, available_models=models_context)
                except InvalidModelReferenceType as e:
                    raise PydanticCustomError()
            return model_reference
        except ModelReferenceNotFound as e:
            raise PydanticCustomError()
    return check_model_reference_wrapper


@target("libecalc.common.ddd.value_object.value_object", props=["C18", "C23", "C25"])
def value_object(cls):
    return dataclass(cls, frozen=True, eq=True, slots=False)


@target("libecalc.common.units.Unit.__str__", props=["C12", "C13", "C15"])
def Unit_str(self):
    return self.value


@target("libecalc.common.errors.exceptions.EcalcError.__str__", props=["C29"])
def EcalcError_str(self):
    if self.title:
        return f"{self.title}: {self.message}"
    return f"{self.message}"


@target("libecalc.presentation.yaml.file_context.FileMark.__str__", props=["C29"])
def FileMark_str(self):
    return f" line {self.line_number}, column {self.column}"


@target("libecalc.presentation.yaml.file_context.FileContext.__str__", props=["C29"])
def FileContext_str(self):
    text = f" in '{self.name}',"
    if self.start is not None:
        text += str(self.start)
    return text


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.__str__", props=["C29"])
def ModelValidationException_str(self):
    msg = "Validation error\n\n"
    errors = "\n\n".join(map(str, self._errors))
    errors = indent(errors, "\t")
    msg += errors
    return msg


@target("libecalc.presentation.yaml.model_validation_exception.ModelValidationException.from_pydantic", props=["C29"])
def ModelValidationException_from_pydantic(cls, validation_error, file_context):
    return cls(errors=[ModelValidationError(message=error["msg"], location=Location.from_pydantic_loc(error["loc"]), file_context=file_context) for error in custom_errors(e=validation_error)])


@target("libecalc.presentation.yaml.validation_errors.ModelValidationError.yaml", props=["C29"])
def ModelValidationError_yaml(self):
    if self.data is None:
        return None
    return yaml.dump(self.data, sort_keys=False).strip()


@target("libecalc.presentation.yaml.validation_errors.ModelValidationError.__str__", props=["C29"])
def ModelValidationError_str(self):
    msg = ""
    if self.file_context is not None and self.file_context.start is not None:
        msg += f"Object starting on line {self.file_context.start.line_number}\n"
    if self.yaml is not None:
        msg += "...\n"
        msg += self.yaml
        msg += "\n...\n\n"
    if not self.location.is_empty():
        msg += f"Location: {self.location.as_dot_separated()}\n"
    if self.name is not None:
        msg += f"Name: {self.name}\n"
    msg += f"Message: {self.message}\n"
    return msg


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.YamlReader.load", props=["C26", "C29", "C23"])
def YamlReader_load(self, yaml_file):
    class UniqueKeyLoader(self.__loader):
        def construct_mapping(self, node, deep=False):
            mapping = set()
            for key_node, _ in node.value:
                each_key = self.construct_object(key_node, deep=deep)
                if each_key in mapping:
                    raise DuplicateKeyError(key=each_key, file_context=FileContext(name=yaml_file.name, start=FileMark(line_number=key_node.start_mark.line + 1, column=key_node.start_mark.column + 1)))
                mapping.add(each_key)
            return super().construct_mapping(node, deep)
    if self.__include_constructor is not None:
        UniqueKeyLoader.add_constructor('!include', self.__include_constructor)
    if re.search(COMPONENT_NAME_PATTERN, Path(yaml_file.name).stem) is None:
        raise YamlError(problem="special characters")
    try:
        return yaml.load(yaml_file, Loader=UniqueKeyLoader)
    except KeyError as e:
        raise YamlError(problem="key not found")


@target("libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model.PyYamlYamlModel.YamlReader.dump_and_load", props=["C26"])
def YamlReader_dump_and_load(self, yaml_file):
    return yaml.dump(self.load(yaml_file), Dumper=PyYamlYamlModel.IndentationDumper, sort_keys=False)


@target("libecalc.common.decorators.capturer.Capturer.capture_return_values", props=["C23", "C18"])
def Capturer_capture_return_values(do_save_captured_content=False, output_directory=Path(os.getcwd()) / "captured_data"):
    def decorate(capturable):
        @wraps(capturable)
        def with_capture(self, *args, **kwargs):
            return_values = capturable(self, *args, **kwargs)
            try:
                save(output_directory, return_values) if do_save_captured_content is True else ...
            except Exception as e:
                pass
            return return_values
        return with_capture
    return decorate
