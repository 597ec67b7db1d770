# Reference equations (parsed by the checker, never executed).
import numpy as np
import pandas as pd
from collections import Counter
from datetime import date, datetime
from io import BytesIO
from libecalc.common.datetime.utils import DateTimeFormats
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
from libecalc.common.errors.exceptions import EcalcError, InvalidColumnException, InvalidResourceException, NoColumnsException, ProgrammingError
from libecalc.common.list.list_utils import transpose
from libecalc.common.string.string_utils import get_duplicates
from libecalc.common.temporal_model import TemporalModel
from libecalc.common.time_utils import Period, Periods, convert_date_to_datetime
from libecalc.common.variables import VariablesMap
from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
from libecalc.domain.process.pump.pump import PumpModel
from libecalc.dto.types import InterpolationType
from libecalc.expression.expression import Expression
from libecalc.infrastructure.file_io import EcalcFile, EcalcFileType, EcalcFiles, InvalidEcalcFile, ValidEcalcFile, find_longest_common_path, is_ignored_zip_content, make_relative_path, strip_common_path, unpack_zip
from libecalc.infrastructure.file_utils import OutputFormat, dataframe_to_csv, to_json
from libecalc.presentation.simple_result import SimpleResultData
from libecalc.presentation.yaml.domain.time_series import TimeSeries, split_time_vector
from libecalc.presentation.yaml.domain.time_series_collection import TimeSeriesCollection
from libecalc.presentation.yaml.domain.time_series_exceptions import TimeSeriesNotFound
from libecalc.presentation.yaml.domain.time_series_resource import DuplicateDatesException, EmptyTimeVectorException, InvalidTimeSeriesResourceException
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector import InvalidEndDate
from libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper import InvalidVariablesException, VariableProcessor, _evaluate_variables
from libecalc.presentation.yaml.yaml_keywords import EcalcYamlKeywords
from libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series import YamlDefaultTimeSeriesCollection, YamlMiscellaneousTimeSeriesCollection
from libecalc.presentation.yaml.yaml_types.yaml_data_or_file import YamlFile
from libecalc.presentation.yaml.yaml_types.yaml_variable import YamlSingleVariable
from operator import itemgetter
from orjson import orjson
from pathlib import Path
from scipy.interpolate import interp1d
from tempfile import TemporaryFile
from typing import assert_never
MAIN_PROVEN_FILE = ['INSTALLATION', 'TIME_SERIES', 'FACILITY_INPUTS', 'FUEL_TYPES']
IGNORED_ZIP_CONTENTS_KEYWORDS = ['.DS_Store', '__MACOSX']
CSV_EXTENSION = '.csv'
YAML_EXTENSIONS = ['.yml', '.yaml']
ZIP_EXTENSION = '.zip'


@target("libecalc.presentation.yaml.domain.time_series.TimeSeries.__init__", props=["C07"])
def TimeSeries_init(self, reference_id, time_vector, series, extrapolate, interpolation_type):
    self.reference_id = reference_id
    self.time_vector = time_vector
    self.series = series
    self._extrapolate = extrapolate
    self._interpolation_type = interpolation_type


@target("libecalc.presentation.yaml.domain.time_series.TimeSeries._get_interpolation_kind", props=["C07"])
def TimeSeries_get_interpolation_kind(rate_interpolation_type):
    if rate_interpolation_type == InterpolationType.LINEAR:
        return 'linear'
    elif rate_interpolation_type == InterpolationType.RIGHT:
        return 'previous'
    elif rate_interpolation_type == InterpolationType.LEFT:
        return 'next'
    else:
        raise ValueError()


@target("libecalc.presentation.yaml.domain.time_series.TimeSeries._interpolate", props=["C07"])
def TimeSeries_interpolate(self, time_vector, rate_interpolation_type):
    interpolation_kind = self._get_interpolation_kind(rate_interpolation_type=rate_interpolation_type)
    start_time = self.time_vector[0]
    if len(self.time_vector) == 1:
        setup_times = [0, 1]
        setup_y = 2 * self.series
    else:
        setup_times = [(time - start_time).total_seconds() for time in self.time_vector]
        setup_y = self.series
    interpolator = interp1d(x=setup_times, y=setup_y, kind=interpolation_kind)
    target_times = [(time - start_time).total_seconds() for time in time_vector]
    return list(interpolator(target_times))


@target("libecalc.presentation.yaml.domain.time_series.TimeSeries.fit_to_time_vector", props=["C07"])
def TimeSeries_fit_to_time_vector(self, time_vector):
    start, end = (self.time_vector[0], self.time_vector[-1])
    number_of_entries_before, entries_between, number_of_entries_after = split_time_vector(time_vector, start=start, end=end)
    if self._extrapolate:
        extrapolation_after_value = self.series[-1]
    else:
        extrapolation_after_value = 0.0
    before_values = [0.0] * number_of_entries_before
    between_values = self._interpolate(time_vector=entries_between, rate_interpolation_type=self._interpolation_type)
    after_values = [extrapolation_after_value] * number_of_entries_after
    return self.__class__(reference_id=self.reference_id, time_vector=time_vector, series=[*before_values, *between_values, *after_values], extrapolate=self._extrapolate, interpolation_type=self._interpolation_type)


@target("libecalc.presentation.yaml.domain.time_series.TimeSeries.sort", props=["C07"])
def TimeSeries_sort(self):
    sort_columns = [self.time_vector, self.series]
    sort_rows = transpose(sort_columns)
    sorted_rows = sorted(sort_rows, key=itemgetter(0))
    sorted_columns = transpose(sorted_rows)
    self.time_vector = list(sorted_columns[0])
    self.series = list(sorted_columns[1])
    return self


@target("libecalc.presentation.yaml.domain.time_series.split_time_vector", props=["C07"])
def f_split_time_vector(time_vector, start, end):
    number_of_entries_before = len([date for date in time_vector if date < start])
    number_of_entries_after = len([date for date in time_vector if date > end])
    entries_between = [date for date in time_vector if start <= date <= end]
    return (number_of_entries_before, entries_between, number_of_entries_after)


@target("libecalc.presentation.yaml.domain.time_series_resource.InvalidTimeSeriesResourceException.__init__", props=["C07"])
def InvalidTimeSeriesResourceException_init(self, message):
    super().__init__('Invalid time series resource', message)


@target("libecalc.presentation.yaml.domain.time_series_resource.EmptyTimeVectorException.__init__", props=["C07"])
def EmptyTimeVectorException_init(self):
    super().__init__('The time vector is empty')


@target("libecalc.presentation.yaml.domain.time_series_resource.DuplicateDatesException.__init__", props=["C07"])
def DuplicateDatesException_init(self, duplicates):
    self.duplicates = duplicates
    super().__init__(f'The time series resource contains duplicate dates: {','.join(map(str, duplicates))}')


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource.__init__", props=["C07"])
def TimeSeriesResource_init(self, resource):
    self._resource = resource
    headers = resource.get_headers()
    if len(headers) == 0:
        raise InvalidResourceException('Invalid resource', 'Resource must at least have one column')
    if EcalcYamlKeywords.date in headers:
        time_vector = resource.get_column(EcalcYamlKeywords.date)
        headers = [header for header in headers if header != EcalcYamlKeywords.date]
    elif EcalcYamlKeywords.dates in headers:
        time_vector = resource.get_column(EcalcYamlKeywords.dates)
        headers = [header for header in headers if header != EcalcYamlKeywords.dates]
    else:
        time_vector = resource.get_column(headers[0])
        headers = headers[1:]
    try:
        if not all((isinstance(time, int | str) for time in time_vector)):
            raise InvalidTimeSeriesResourceException('Time vector contains values that are not int or str, possibly caused by an extra comma.')
        self._time_vector = self._parse_time_vector(time_vector)
    except ValueError as e:
        raise InvalidTimeSeriesResourceException(f'Could not parse time vector: {str(e)}')
    self._headers = headers


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource._validate_time_vector", props=["C07"])
def TimeSeriesResource_validate_time_vector(self):
    if len(self._time_vector) == 0:
        raise EmptyTimeVectorException()
    duplicates = get_duplicates(self._time_vector)
    if len(duplicates) != 0:
        raise DuplicateDatesException(duplicates=duplicates)


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource._validate_columns", props=["C07"])
def TimeSeriesResource_validate_columns(self):
    headers = self.get_headers()
    columns = [self.get_column(header) for header in headers]
    time_vector = self.get_time_vector()
    time_vector_length = len(time_vector)
    headers_length = len(headers)
    if headers_length == 0:
        raise NoColumnsException()
    number_of_rows = len(columns[0])
    if number_of_rows == 0:
        raise InvalidResourceException('No rows in resource', 'The resource should have at least one row.')
    if not number_of_rows == time_vector_length:
        raise InvalidResourceException('Rows mismatch', f'The number of records for times and data do not match: data: {number_of_rows}, time_vector: {time_vector_length}')
    for column, header in zip(columns, headers):
        if len(column) != time_vector_length:
            raise InvalidColumnException(header=header, message=f"Column '{header}' does not match the length of the time vector.")
        for row_index, value in enumerate(column):
            try:
                float(value)
            except (OverflowError, ValueError) as e:
                raise InvalidColumnException(header=header, row_index=row_index, message=f"The timeseries column '{header}' contains non-numeric values.")


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource._parse_time_vector", props=["C07"])
def TimeSeriesResource_parse_time_vector(date_input):
    date_patterns = {'YEAR_ONLY': '\\d{4}', 'ISO8601_date': '(\\d{4})(\\.|\\/|-)(1[0-2]|0?[1-9])\\2(3[01]|[12][0-9]|0?[1-9])', 'ISO8601_datetime': '^(-?(?:[1-9][0-9]*)?[0-9]{4})(\\.|\\/|-)(1[0-2]|0[1-9])(\\.|\\/|-)(3[01]|0[1-9]|[12][0-9])(T|\\s)(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?$', 'EU_date': '(3[01]|[12][0-9]|0?[1-9])(\\.|\\/|-)(1[0-2]|0?[1-9])\\2(\\d{4})', 'EU_datetime': '(3[01]|[12][0-9]|0?[1-9])(\\.|\\/|-)(1[0-2]|0?[1-9])\\2(\\d{4})((\\s|T)(\\d{2}):(\\d{2})(:\\d{2})?)', 'ILLEGAL_ISO8601_optional_time': '(\\d{4})(\\.|\\/|-)(1[0-2]|0?[1-9])\\2(3[01]|[12][0-9]|0?[1-9])((\\s|T)(\\d{2}:){2}\\d{2})?', 'ILLEGAL_EU_optional_time': '(3[01]|[12][0-9]|0?[1-9])(\\.|\\/|-)(1[0-2]|0?[1-9])\\2(\\d{4})((\\s)(\\d{2}):(\\d{2})(:\\d{2})?)?', 'ILLEGAL_US_optional_time': '(1[0-2]|0?[1-9])(\\.|\\/|-)(3[01]|[12][0-9]|0?[1-9])\\2(\\d{4})((\\s|T)(\\d{1,2})\\:(\\d{2})(:\\d{2})?)?'}
    check_dates = pd.Series(date_input).astype(str)
    date_list = check_dates.str.replace('/|\\.|\\\\', '-', regex=True).tolist()
    if check_dates.str.fullmatch(date_patterns['YEAR_ONLY']).all():
        return pd.to_datetime(date_list, format='%Y', errors='raise').to_pydatetime().tolist()
    if check_dates.str.fullmatch(date_patterns['ISO8601_datetime']).all():
        return pd.to_datetime(date_list, format='ISO8601', errors='raise').to_pydatetime().tolist()
    if check_dates.str.fullmatch(date_patterns['ISO8601_date']).all():
        return pd.to_datetime(date_list, format='ISO8601', errors='raise').to_pydatetime().tolist()
    if check_dates.str.fullmatch(date_patterns['EU_datetime']).all():
        return pd.to_datetime(date_list, dayfirst=True, errors='raise').to_pydatetime().tolist()
    if check_dates.str.fullmatch(date_patterns['EU_date']).all():
        return pd.to_datetime(date_list, dayfirst=True, errors='raise').to_pydatetime().tolist()
    message = ''
    if (wrong_time_format := check_dates.str.match('.*(am|pm|AM|PM)$')).any():
        message += 'AM/PM are not supported in dates, only 24 hour clock is valid. '
        if not wrong_time_format.all():
            message += f' Found at approx lines: {np.flatnonzero(wrong_time_format) + 1}. '
    if (has_time := check_dates.str.fullmatch('.*(\\s(\\d{2}:){2}\\d{2})$')).any():
        if not (has_time.all() or not has_time.any()):
            most_with_time = has_time.sum() > len(check_dates) // 2
            locations = np.flatnonzero(~has_time) + 1 if most_with_time else np.flatnonzero(has_time) + 1
            message += f'Mostly dates {('with' if most_with_time else 'without')} time present, outliers found at approx lines: {locations}. '
    eu = check_dates.str.fullmatch(f'{date_patterns['ILLEGAL_EU_optional_time']}')
    us = check_dates.str.fullmatch(f'{date_patterns['ILLEGAL_US_optional_time']}')
    if not (eu == us).all():
        only_us = us ^ us & eu
        us_locations = np.flatnonzero(only_us) + 1
        message += f'Month first (US style) dates are not supported, found at approx lines: {us_locations}. '
    year_only = check_dates.str.fullmatch(f'{date_patterns['YEAR_ONLY']}')
    iso = check_dates.str.fullmatch(f'{date_patterns['ILLEGAL_ISO8601_optional_time']}.*')
    unknown = ~(iso | eu | year_only)
    test_amounts = {'DAY-FIRST': eu.values.sum(), 'ISO-8601': iso.values.sum(), 'YEAR_ONLY': year_only.values.sum(), 'UNKNOWN': unknown.values.sum()}
    test = {'DAY-FIRST': eu, 'ISO-8601': iso, 'YEAR_ONLY': year_only, 'UNKNOWN': unknown}
    most_prevalent_type = max(test_amounts, key=test_amounts.__getitem__)
    amount_most_prevalent = test_amounts.pop(most_prevalent_type)
    other_keys = [key for key, value in test_amounts.items() if value > 0]
    other_lines = ~test[most_prevalent_type]
    if other_lines.any():
        other_lines = np.flatnonzero(other_lines) + 1
        message += f'Seems like you mostly have dates in {most_prevalent_type} format with ~{round(amount_most_prevalent / len(check_dates) * 100)}% of the lines. '
        if most_prevalent_type != 'UNKNOWN':
            message += f'Found lines not conforming to this format at approx lines: {other_lines}. These lines have format(s) {other_keys}'
    if message:
        err = ValueError(message + ' Note: All line numbers exclude headers and comments, and may therefore be a bit off.')
        raise err
    raise ValueError()


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource.validate", props=["C07"])
def TimeSeriesResource_validate(self):
    self._validate_time_vector()
    self._validate_columns()
    return self


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource.get_time_vector", props=["C07"])
def TimeSeriesResource_get_time_vector(self):
    return self._time_vector


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource.get_headers", props=["C07"])
def TimeSeriesResource_get_headers(self):
    return self._headers


@target("libecalc.presentation.yaml.domain.time_series_resource.TimeSeriesResource.get_column", props=["C07"])
def TimeSeriesResource_get_column(self, header):
    return self._resource.get_column(header)


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.__init__", props=["C07"])
def TimeSeriesCollection_init(self, name, resource, interpolation, extrapolation, influence_time_vector):
    self.name = name
    self._resource = resource
    self._interpolation = interpolation
    self._extrapolation = extrapolation
    self._influence_time_vector = influence_time_vector


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.should_influence_time_vector", props=["C07"])
def TimeSeriesCollection_should_influence_time_vector(self):
    return self._influence_time_vector


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.get_time_vector", props=["C07"])
def TimeSeriesCollection_get_time_vector(self):
    return self._resource.get_time_vector()


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.get_time_series_references", props=["C07"])
def TimeSeriesCollection_get_time_series_references(self):
    return self._resource.get_headers()


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.get_time_series", props=["C07"])
def TimeSeriesCollection_get_time_series(self, time_series_id):
    try:
        return TimeSeries(reference_id=f'{self.name};{time_series_id}', time_vector=self.get_time_vector(), series=self._resource.get_column(time_series_id), extrapolate=self._extrapolation, interpolation_type=self._interpolation).sort()
    except InvalidResourceException as e:
        raise TimeSeriesNotFound(f"Unable to find time series with reference '{time_series_id}' in collection '{self.name}'")


@target("libecalc.presentation.yaml.domain.time_series_collection.TimeSeriesCollection.from_yaml", props=["C07"])
def TimeSeriesCollection_from_yaml(cls, resource, yaml_collection):
    if isinstance(yaml_collection, YamlDefaultTimeSeriesCollection):
        interpolation = InterpolationType.RIGHT
        extrapolation = False
    elif isinstance(yaml_collection, YamlMiscellaneousTimeSeriesCollection):
        interpolation = InterpolationType[yaml_collection.interpolation_type]
        extrapolation = yaml_collection.extrapolation if yaml_collection.extrapolation is not None else False
    else:
        assert_never(yaml_collection)
    return cls(name=yaml_collection.name, resource=resource, interpolation=interpolation, extrapolation=extrapolation, influence_time_vector=yaml_collection.influence_time_vector)


@target("libecalc.presentation.yaml.domain.time_series_collections.TimeSeriesCollections.__init__", props=["C07"])
def TimeSeriesCollections_init(self, time_series_collections):
    self._time_series_collections = time_series_collections


@target("libecalc.presentation.yaml.domain.time_series_collections.TimeSeriesCollections.get_time_series_references", props=["C07"])
def TimeSeriesCollections_get_time_series_references(self):
    time_series_references = []
    for collection in self._time_series_collections.values():
        for time_series_reference in collection.get_time_series_references():
            time_series_references.append(f'{collection.name};{time_series_reference}')
    return time_series_references


@target("libecalc.presentation.yaml.domain.time_series_collections.TimeSeriesCollections.get_time_series", props=["C07"])
def TimeSeriesCollections_get_time_series(self, time_series_id):
    reference_id_parts = time_series_id.split(';')
    if len(reference_id_parts) != 2:
        raise TimeSeriesNotFound(time_series_id)
    [collection_id, time_series_id] = reference_id_parts
    if collection_id not in self._time_series_collections:
        raise TimeSeriesNotFound(time_series_id)
    return self._time_series_collections[collection_id].get_time_series(time_series_id)


@target("libecalc.presentation.yaml.domain.time_series_collections.TimeSeriesCollections.get_time_vector", props=["C07"])
def TimeSeriesCollections_get_time_vector(self):
    time_vector = set()
    for time_series_collection in self._time_series_collections.values():
        if time_series_collection.should_influence_time_vector():
            time_vector = time_vector.union(time_series_collection.get_time_vector())
    return time_vector


@target("libecalc.presentation.yaml.domain.time_series_collections.TimeSeriesCollections.create", props=["C07"])
def TimeSeriesCollections_create(cls, time_series, resources):
    time_series_collections = {}
    if not resources:
        return cls(time_series_collections)
    for time_series_collection in time_series:
        resource = resources.get(time_series_collection.file)
        if resource is None:
            continue
        time_series_collections[time_series_collection.name] = TimeSeriesCollection.from_yaml(resource=resource, yaml_collection=time_series_collection)
    return cls(time_series_collections)


@target("libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector._get_date_range", props=["C07"])
def f_get_date_range(start, end, frequency):
    if frequency == libecalc.common.time_utils.Frequency.NONE:
        return set()
    date_range = pd.date_range(start=start, end=end, freq=frequency.value)
    return set(date_range.to_pydatetime())


@target("libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector.get_global_time_vector", props=["C07"])
def f_get_global_time_vector(time_series_time_vector, end, start=None, additional_dates=None):
    time_vector = set(time_series_time_vector)
    if not time_vector and (not start):
        raise EcalcValidationException('No time series found, please provide one or specify both a start date and an end date.')
    start = start or min(time_vector)
    if end <= start:
        raise InvalidEndDate('The end date given in the YAML file must come after the start date.')
    time_vector.update({start, end})
    if additional_dates:
        time_vector.update(additional_dates)
    return sorted((date for date in time_vector if start <= date <= end))


@target("libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper.InvalidVariablesException.__init__", props=["C07"])
def InvalidVariablesException_init(self, message):
    super().__init__(message)


@target("libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper.VariableProcessor.required_variables", props=["C07"])
def VariableProcessor_required_variables(self):
    if isinstance(self.variable, YamlSingleVariable):
        return self.variable.value.variables
    else:
        return {variable for expression in self.variable.values() for variable in expression.value.variables}


@target("libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper.VariableProcessor.process", props=["C07"])
def VariableProcessor_process(self, variables, periods):
    if isinstance(self.variable, YamlSingleVariable):
        return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
    else:
        variable_dates = sorted(self.variable)
        variable_periods = Periods.create_periods(variable_dates, include_before=False)
        processed_expressions = {period: self.variable[date].value.evaluate(variables, fill_length=len(periods)) for period, date in zip(variable_periods, variable_dates)}
        variable_result = []
        should_warn_about_fill_value = False
        for i, period in enumerate(periods):
            variable_period = variable_periods.get_period(period)
            if variable_period in processed_expressions.keys():
                variable_result.append(processed_expressions[variable_period][i])
            else:
                variable_result.append(0.0)
                should_warn_about_fill_value = True
        if should_warn_about_fill_value:
            pass
        return variable_result


@target("libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper._evaluate_variables", props=["C07"])
def f_evaluate_variables(variables, processed_variables, periods):
    variables_to_process = [VariableProcessor(reference_id=f'$var.{reference_id}', variable=variable) for reference_id, variable in variables.items()]
    processed_variables = {**processed_variables}
    did_process_variable = True
    while len(variables_to_process) > 0 and did_process_variable:
        did_process_variable = False
        for variable in variables_to_process:
            is_required_variables_processed = all((required_variable in processed_variables for required_variable in variable.required_variables))
            if is_required_variables_processed:
                processed_variables[variable.reference_id] = variable.process(variables=processed_variables, periods=periods)
                variables_to_process.remove(variable)
                did_process_variable = True
    has_unsolvable_variables = len(variables_to_process) != 0
    if has_unsolvable_variables:
        missing_references = sorted({reference_id for variable in variables_to_process for reference_id in variable.required_variables if reference_id not in processed_variables})
        unsolvable_variables = sorted([variable.reference_id for variable in variables_to_process])
        raise InvalidVariablesException(f'Could not evaluate all variables, unable to resolve references in {', '.join(unsolvable_variables)}. Missing references are {', '.join(missing_references)}')
    return VariablesMap(variables=processed_variables, periods=periods)


@target("libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper.map_yaml_to_variables", props=["C07"])
def f_map_yaml_to_variables(configuration, time_series_provider, periods):
    time_series_list = [time_series_provider.get_time_series(time_series_reference) for time_series_reference in time_series_provider.get_time_series_references()]
    start_dates = periods.start_dates
    processed_variables = {time_series.reference_id: time_series.fit_to_time_vector(start_dates).series for time_series in time_series_list}
    return _evaluate_variables(configuration.variables, processed_variables=processed_variables, periods=periods)


@target("libecalc.presentation.yaml.yaml_types.yaml_default_datetime.convert_str_or_date_to_datetime", props=["C07"])
def f_convert_str_or_date_to_datetime(x):
    if isinstance(x, date):
        return convert_date_to_datetime(x)
    return x


@target("libecalc.presentation.yaml.yaml_types.yaml_data_or_file.file_or_data_discriminator", props=["C07"])
def f_file_or_data_discriminator(data):
    if isinstance(data, YamlFile):
        return 'file'
    elif not isinstance(data, dict):
        return 'data'
    lower_case_keys = [str(key).lower() for key in data.keys()]
    return 'file' if EcalcYamlKeywords.file.lower() in lower_case_keys else 'data'


@target("libecalc.domain.resource.Resource.get_float_column", props=["C07"])
def Resource_get_float_column(self, header):
    try:
        column = self.get_column(header)
        column = [float(value) for value in column]
    except ValueError as e:
        msg = f'Resource contains non-numeric value: {e}'
        raise InvalidColumnException(header=header, message=msg)
    return column


@target("libecalc.presentation.yaml.mappers.facility_input._get_float_column_or_none", props=["C07", "C24"])
def f_get_float_column_or_none(resource, header):
    try:
        return resource.get_float_column(header)
    except InvalidResourceException:
        return None


@target("libecalc.presentation.yaml.mappers.facility_input._create_pump_model_single_speed_dto_model_data", props=["C07", "C24"])
def f_create_pump_model_single_speed_dto_model_data(resource, facility_data):
    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
    return PumpModel(pump_chart=pump_chart, head_margin=facility_data.head_margin)


@target("libecalc.presentation.yaml.mappers.facility_input._create_pump_chart_variable_speed_dto_model_data", props=["C07", "C24"])
def f_create_pump_chart_variable_speed_dto_model_data(resource, facility_data):
    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
    return PumpModel(pump_chart=pump_chart, head_margin=facility_data.head_margin)


@target("libecalc.presentation.yaml.mappers.facility_input._create_generator_set_model", props=["C07", "C24"])
def f_create_generator_set_model(resource, facility_data):
    return GeneratorSetModel(name=facility_data.name, resource=resource)


@target("libecalc.infrastructure.file_io", props=["C07"])
class K42_constants:
    YAML_EXTENSIONS = ['.yml', '.yaml']
    CSV_EXTENSION = '.csv'
    ZIP_EXTENSION = '.zip'
    MAIN_PROVEN_FILE = ['INSTALLATION', 'TIME_SERIES', 'FACILITY_INPUTS', 'FUEL_TYPES']
    IGNORED_ZIP_CONTENTS_KEYWORDS = ['.DS_Store', '__MACOSX']


@target("libecalc.infrastructure.file_io.is_main_yaml_file", props=["C07"])
def f_is_main_yaml_file(file):
    bytes_str = file.read()
    file.seek(0)
    text_obj = bytes_str.decode('UTF-8')
    return any((x in text_obj for x in MAIN_PROVEN_FILE))


@target("libecalc.infrastructure.file_io.is_ignored_zip_content", props=["C07"])
def f_is_ignored_zip_content(file):
    return bool(file.is_dir() or any((substring in str(file) for substring in IGNORED_ZIP_CONTENTS_KEYWORDS)))


@target("libecalc.infrastructure.file_io.EcalcFileType", props=["C07"])
class EcalcFileTypeValues:
    YAML = 'yaml'
    CSV = 'csv'
    ZIP = 'zip'


@target("libecalc.infrastructure.file_io.EcalcFile.is_csv", props=["C07"])
def EcalcFile_is_csv(filename):
    return filename.suffix.lower() == CSV_EXTENSION


@target("libecalc.infrastructure.file_io.EcalcFile.is_yaml", props=["C07"])
def EcalcFile_is_yaml(filename):
    try:
        file_extension = filename.suffix
        return file_extension.lower() in YAML_EXTENSIONS
    except AttributeError as e:
        return False


@target("libecalc.infrastructure.file_io.EcalcFile.is_zip", props=["C07"])
def EcalcFile_is_zip(filename):
    try:
        file_extension = filename.suffix
        return file_extension.lower() in ZIP_EXTENSION
    except AttributeError as e:
        return False


@target("libecalc.infrastructure.file_io.EcalcFile.get_type", props=["C07"])
def EcalcFile_get_type(filename):
    if EcalcFile.is_csv(filename):
        return EcalcFileType.CSV
    elif EcalcFile.is_yaml(filename):
        return EcalcFileType.YAML
    elif EcalcFile.is_zip(filename):
        return EcalcFileType.ZIP
    message = f'Cannot get (valid) file type of {filename}'
    raise EcalcError(message=message, title='Invalid file type', error_type=EcalcErrorType.CLIENT_ERROR)


@target("libecalc.infrastructure.file_io.ValidEcalcFile.is_valid", props=["C07"])
def ValidEcalcFile_is_valid(self):
    return True


@target("libecalc.infrastructure.file_io.ValidEcalcFile.is_main_yaml_file", props=["C07"])
def ValidEcalcFile_is_main_yaml_file(self):
    bytes_str = self.file.read()
    self.file.seek(0)
    text_obj = bytes_str.decode('UTF-8')
    return any((x in text_obj for x in MAIN_PROVEN_FILE))


@target("libecalc.infrastructure.file_io.InvalidEcalcFile.is_valid", props=["C07"])
def InvalidEcalcFile_is_valid(self):
    return False


@target("libecalc.infrastructure.file_io.EcalcFiles", props=["C07"])
class EcalcFilesValues:
    ALLOWED_EXTENSIONS = {'yaml', 'csv', 'yml', 'zip'}


@target("libecalc.infrastructure.file_io.EcalcFiles.allowed_file", props=["C07"])
def EcalcFiles_allowed_file(filename):
    return '.' in filename and Path(filename).suffix.split('.')[1] in EcalcFiles.ALLOWED_EXTENSIONS


@target("libecalc.infrastructure.file_io.EcalcFiles.get_main_file", props=["C07"])
def EcalcFiles_get_main_file(files):
    main_files = [file for file in files if file.is_yaml(file.original_filename) and file.is_main_yaml_file()]
    if len(main_files) > 1:
        raise EcalcError('Bad Request', f'Only one main file is supported, the following files were detected as main files: {', '.join([main_file.filename for main_file in main_files])}', error_type=EcalcErrorType.CLIENT_ERROR)
    if len(main_files) == 0:
        raise EcalcError('Bad Request', 'No main files found. There must be one main file', error_type=EcalcErrorType.CLIENT_ERROR)
    return main_files[0]


@target("libecalc.infrastructure.file_io.EcalcFiles.validate_filetypes", props=["C07"])
def EcalcFiles_validate_filetypes(files):
    valid_files = []
    invalid_files = []
    for file in files:
        if EcalcFiles.allowed_file(file.filename):
            if EcalcFile.is_zip(Path(file.filename)):
                if len(files) > 1:
                    raise EcalcError(title='Invalid file combination', message='A zip file cannot be combined with other file types. Please provide a zip file alone.')
                valid_files, invalid_files = unpack_zip(file.file)
            elif EcalcFile.is_csv(Path(file.filename)) or EcalcFile.is_yaml(Path(file.filename)):
                valid_files.append(ValidEcalcFile(original_filename=Path(file.filename), filename=file.filename, file=file.file, file_type=EcalcFile.get_type(filename=Path(file.filename))))
            else:
                invalid_files.append(InvalidEcalcFile(original_filename=Path(file.filename), filename=file.filename, error='Invalid File Extension'))
        else:
            invalid_files.append(InvalidEcalcFile(original_filename=Path(file.filename), filename=file.filename, error='Invalid File Extension'))
    return (valid_files, invalid_files)


@target("libecalc.infrastructure.file_io.find_longest_common_path", props=["C07"])
def f_find_longest_common_path(file_path_1, file_path_2):
    common_path = ''
    for path_1, path_2 in zip(file_path_1.parts, file_path_2.parts):
        if path_1 == path_2:
            common_path += path_1 + '/'
        else:
            break
    return common_path


@target("libecalc.infrastructure.file_io.strip_common_path", props=["C07"])
def f_strip_common_path(common_path, path):
    return path.replace(common_path, '')


@target("libecalc.infrastructure.file_io.make_relative_path", props=["C07"])
def f_make_relative_path(linked_file, main_file):
    main_file_path = Path(main_file)
    for part in main_file_path.parts[:-1]:
        if part != '' and part != '/':
            linked_file = '../' + linked_file
    return linked_file


@target("libecalc.infrastructure.file_io.find_duplicates", props=["C07"])
def f_find_duplicates(files):
    count_filenames = Counter([file.filename for file in files])
    duplicates = [filename for filename, count in count_filenames.items() if count > 1]
    return duplicates


@target("libecalc.infrastructure.file_io.rename_duplicates", props=["C07"])
def f_rename_duplicates(valid_files, duplicates):
    renamed_files = {}
    for file in valid_files:
        if file.filename in duplicates:
            renamed_filename = str(file.original_filename).replace('/', '_')
            if len(renamed_filename) > 100:
                renamed_filename = renamed_filename[-94:] + str(uuid.uuid4().hex.upper()[0:6])
            renamed_files[file.original_filename] = renamed_filename
        else:
            renamed_files[file.original_filename] = file.filename
    return renamed_files


@target("libecalc.infrastructure.file_io.make_relative_paths", props=["C07"])
def f_make_relative_paths(files, main_yaml):
    relative_paths = {}
    for file in files:
        if file == main_yaml:
            relative_paths[main_yaml.original_filename] = main_yaml.filename
        else:
            common_path = find_longest_common_path(Path(file.original_filename), Path(main_yaml.original_filename))
            stripped_file = strip_common_path(common_path, str(file.original_filename))
            stripped_main = strip_common_path(common_path, str(main_yaml.original_filename))
            relative_path = make_relative_path(stripped_file, stripped_main)
            relative_paths[file.original_filename] = relative_path
    return relative_paths


@target("libecalc.infrastructure.file_io.unpack_zip", props=["C07"])
def f_unpack_zip(file):
    valid_files = []
    invalid_files = []
    try:
        with zipfile.ZipFile(BytesIO(file.read())) as archive:
            for zip_info in archive.infolist():
                try:
                    file_path = Path(zip_info.filename)
                    if is_ignored_zip_content(file_path) or zip_info.is_dir():
                        continue
                    elif EcalcFile.is_csv(file_path) or EcalcFile.is_yaml(file_path):
                        with archive.open(zip_info) as file:
                            file_like = TemporaryFile()
                            file_like.write(file.read())
                            file_like.seek(0)
                            valid_files.append(ValidEcalcFile(original_filename=file_path, filename=file_path.name, file=file_like, file_type=EcalcFile.get_type(filename=file_path)))
                    else:
                        invalid_files.append(InvalidEcalcFile(original_filename=file_path, filename=file_path.name, error='Invalid file extension'))
                        continue
                except EcalcError as ee:
                    invalid_files.append(InvalidEcalcFile(original_filename=file_path, filename=file_path.name, error=str(ee.message) if ee.message is not None else 'Unknown error'))
        valid_file_paths = [valid_file.original_filename for valid_file in valid_files]
        if len(valid_file_paths) != len(set(valid_file_paths)):
            raise EcalcError(title='Bad zip file', message='Duplicated filepaths in zip archive detected. Please fix.')
        return (valid_files, invalid_files)
    except zipfile.BadZipFile as e:
        raise EcalcError(title='Bad zip file', message='An error occurred while unpacking the zip file')


@target("libecalc.infrastructure.file_utils.OutputFormat", props=["C07"])
class OutputFormatValues:
    CSV = 'csv'
    JSON = 'json'


@target("libecalc.infrastructure.file_utils.dataframe_to_csv", props=["C07"])
def f_dataframe_to_csv(df, separator=',', show_index=True, float_formatter='%20.5f', date_format=None):
    return df.to_csv(float_format=float_formatter, index=show_index, index_label='timesteps', encoding='utf-8', sep=separator, date_format=date_format)


@target("libecalc.infrastructure.file_utils.to_json", props=["C07"])
def f_to_json(result, date_format_option):
    data = result.model_dump(exclude_none=True, context={'include_timesteps': True})
    date_format = DateTimeFormats.get_format(date_format_option)

    def default_serializer(x):
        if isinstance(x, datetime):
            return x.strftime(date_format)
        if isinstance(x, np.float64):
            return float(x)
        raise ValueError()
    return orjson.dumps(data, default=default_serializer, option=orjson.OPT_PASSTHROUGH_DATETIME | orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS).decode()


@target("libecalc.infrastructure.file_utils.get_result_output", props=["C07"])
def f_get_result_output(results, output_format, simple_output, date_format_option):
    if output_format == OutputFormat.JSON:
        result_to_serialize = SimpleResultData.from_dto(results) if simple_output else results
        return to_json(result_to_serialize, date_format_option=date_format_option)
    elif output_format == OutputFormat.CSV:
        df = pd.DataFrame(index=results.periods.start_dates)
        for component in results.components:
            component_df = component.to_dataframe(prefix=component.name)
            try:
                df = df.join(component_df)
            except ValueError:
                df = pd.concat([df, component_df], axis=1)
        return dataframe_to_csv(df.fillna('nan'), date_format=DateTimeFormats.get_format(date_format_option))
    else:
        raise ValueError()


@target("libecalc.common.variables.VariablesMap.__init__", props=["C02", "C06", "C07"])
def VariablesMap_init(self, periods, variables=None):
    self._periods = periods
    self._time_vector = periods.all_dates
    self._variables = variables or {}


@target("libecalc.common.variables.VariablesMap.variables", props=["C02", "C06", "C07"])
def VariablesMap_variables(self):
    return self._variables


@target("libecalc.common.variables.VariablesMap.period", props=["C02", "C06", "C07"])
def VariablesMap_period(self):
    return Period(start=self._time_vector[0], end=self._time_vector[-1])


@target("libecalc.common.variables.VariablesMap.length", props=["C02", "C06", "C07"])
def VariablesMap_length(self):
    return len(self._time_vector)


@target("libecalc.common.variables.VariablesMap.get_subset", props=["C02", "C06", "C07"])
def VariablesMap_get_subset(self, start_index=0, end_index=-1):
    subset_time_vector = self._time_vector[start_index:end_index + 1]
    subset_dict = {ref: array[start_index:end_index] for ref, array in self._variables.items()}
    return VariablesMap(variables=subset_dict, periods=Periods.create_periods(subset_time_vector, include_before=False, include_after=False))


@target("libecalc.common.variables.VariablesMap.get_subset_for_period", props=["C02", "C06", "C07"])
def VariablesMap_get_subset_for_period(self, period):
    if not Period.intersects(self.period, period):
        return self.get_subset(0, 0)
    period_start = max(period.start, self.period.start)
    period_end = min(period.end, self.period.end)
    if period_start in self._time_vector and period_end in self._time_vector:
        start_index = self._time_vector.index(period_start)
        end_index = self._time_vector.index(period_end)
    else:
        raise ProgrammingError('Trying to access a period that does not exist in the global time vector. Please contact eCalc support.')
    return self.get_subset(start_index, end_index)


@target("libecalc.common.variables.VariablesMap.get_subset_for_timestep", props=["C02", "C06", "C07"])
def VariablesMap_get_subset_for_timestep(self, current_timestep):
    timestep_index = self._time_vector.index(current_timestep)
    return self.get_subset(timestep_index, timestep_index + 1)


@target("libecalc.common.variables.VariablesMap.zeros", props=["C02", "C06", "C07"])
def VariablesMap_zeros(self):
    return [0.0] * len(self.periods)


@target("libecalc.common.variables.VariablesMap.get_time_vector", props=["C02", "C06", "C07"])
def VariablesMap_get_time_vector(self):
    return self._time_vector


@target("libecalc.common.variables.VariablesMap.get_periods", props=["C02", "C06", "C07"])
def VariablesMap_get_periods(self):
    return self.periods


@target("libecalc.common.variables.VariablesMap.get_period", props=["C02", "C06", "C07"])
def VariablesMap_get_period(self):
    return self.period


@target("libecalc.common.variables.VariablesMap.periods", props=["C02", "C06", "C07"])
def VariablesMap_periods(self):
    return self._periods


@target("libecalc.common.variables.VariablesMap.number_of_periods", props=["C02", "C06", "C07"])
def VariablesMap_number_of_periods(self):
    return len(self._time_vector) - 1


@target("libecalc.common.variables.VariablesMap.evaluate", props=["C02", "C06", "C07"])
def VariablesMap_evaluate(self, expression):
    if isinstance(expression, Expression):
        return expression.evaluate(variables=self._variables, fill_length=len(self.get_periods()))
    elif isinstance(expression, dict):
        return self._evaluate_temporal(temporal_expression=TemporalModel(expression))
    elif isinstance(expression, TemporalModel):
        return self._evaluate_temporal(temporal_expression=expression)
    assert_never(expression)


@target("libecalc.common.variables.VariablesMap._evaluate_temporal", props=["C02", "C06", "C07"])
def VariablesMap_evaluate_temporal(self, temporal_expression):
    result = self.zeros()
    for period, expression in temporal_expression.items():
        if Period.intersects(period, self.get_period()):
            start_index, end_index = period.get_period_indices(self.get_periods())
            variables_map_for_this_period = self.get_subset(start_index=start_index, end_index=end_index)
            evaluated_expression = variables_map_for_this_period.evaluate(expression)
            result[start_index:end_index] = evaluated_expression
    return np.asarray(result)
