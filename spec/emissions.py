# Reference equations (parsed by the checker, never executed).
import numpy as np
from collections import defaultdict
from libecalc.common.component_type import ComponentType
from libecalc.common.list.list_utils import array_to_list
from libecalc.common.string.string_utils import generate_id
from libecalc.common.time_utils import Period
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, Rates, TimeSeriesRate, TimeSeriesStreamDayRate
from libecalc.domain.hydrocarbon_export import InvalidHydrocarbonExport
from libecalc.domain.infrastructure.emitters.venting_emitter import VentingType
from libecalc.expression import Expression
from libecalc.expression.expression import InvalidExpressionError
from libecalc.expression.temporal_expression import TemporalExpression
from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
from libecalc.presentation.yaml.yaml_types.components.yaml_category_field import CategoryField
from numpy import float64
from typing import cast


@target("libecalc.dto.emission.Emission.convert_name", props=["C09"])
def Emission_convert_name(cls, name):
    return name.lower()


@target("libecalc.dto.fuel_type.FuelType.get_id", props=["C09"])
def FuelType_get_id(self):
    return self.id


@target("libecalc.dto.fuel_type.FuelType.get_name", props=["C09"])
def FuelType_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.fuel_model.fuel_model.FuelModel.__init__", props=["C09"])
def FuelModel_init(self, fuel_time_function_dict, expression_evaluator):
    self.temporal_fuel_model = fuel_time_function_dict
    self._expression_evaluator = expression_evaluator


@target("libecalc.domain.infrastructure.energy_components.fuel_model.fuel_model.FuelModel.evaluate_emissions", props=["C09"])
def FuelModel_evaluate_emissions(self, fuel_rate):
    fuel_rate = np.asarray(fuel_rate)
    all_periods = self._expression_evaluator.get_periods()
    emissions = {emission_name: TimeSeriesStreamDayRate(periods=all_periods, values=[0.0] * len(all_periods), unit=Unit.TONS_PER_DAY) for emission_name in {emission.name for _, model in self.temporal_fuel_model.items() for emission in model.emissions}}
    for temporal_period, model in self.temporal_fuel_model.items():
        if Period.intersects(temporal_period, self._expression_evaluator.get_period()):
            start_index, end_index = temporal_period.get_period_indices(self._expression_evaluator.get_periods())
            variables_map_this_period = self._expression_evaluator.get_subset(start_index=start_index, end_index=end_index)
            fuel_rate_this_period = fuel_rate[start_index:end_index]
            for emission in model.emissions:
                factor = variables_map_this_period.evaluate(expression=emission.factor)
                emission_rate_kg_per_day = fuel_rate_this_period * factor
                emission_rate_tons_per_day = Unit.KILO_PER_DAY.to(Unit.TONS_PER_DAY)(emission_rate_kg_per_day).tolist()
                for i in range(len(emission_rate_tons_per_day)):
                    emissions[emission.name].values[i + start_index] += emission_rate_tons_per_day[i]
    return dict(sorted(emissions.items()))


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingType", props=["C09"])
class VentingTypeValues:
    DIRECT_EMISSION = 'DIRECT_EMISSION'
    OIL_VOLUME = 'OIL_VOLUME'


@target("libecalc.domain.infrastructure.emitters.venting_emitter.EmissionRate.__init__", props=["C09"])
def EmissionRate_init(self, time_series_expression, unit, rate_type, regularity):
    self._time_series_expression = time_series_expression
    self.unit = unit
    self.rate_type = rate_type
    self._regularity = regularity
    self._rate_values = self._get_stream_day_values()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.EmissionRate._get_stream_day_values", props=["C09"])
def EmissionRate_get_stream_day_values(self):
    rate = self._time_series_expression.get_masked_values()
    rate_array = np.asarray(rate, dtype=np.float64)
    if self.rate_type == RateType.CALENDAR_DAY:
        rate_array = Rates.to_stream_day(calendar_day_rates=rate_array, regularity=self._regularity.values)
    return rate_array.tolist()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.EmissionRate.get_stream_day_values", props=["C09"])
def EmissionRate_get_stream_day_values_(self):
    return self._rate_values


@target("libecalc.domain.infrastructure.emitters.venting_emitter.EmissionRate.get_periods", props=["C09"])
def EmissionRate_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmission.__init__", props=["C09"])
def VentingEmission_init(self, name, emission_rate):
    self.name = name
    self.emission_rate = emission_rate


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVolumeRate.__init__", props=["C09"])
def OilVolumeRate_init(self, time_series_expression, unit, rate_type, regularity):
    self._time_series_expression = time_series_expression
    self.unit = unit
    self.rate_type = rate_type
    self._regularity = regularity
    self._rate_values = self._get_stream_day_values()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVolumeRate._get_stream_day_values", props=["C09"])
def OilVolumeRate_get_stream_day_values(self):
    rate = self._time_series_expression.get_masked_values()
    rate_array = np.asarray(rate, dtype=np.float64)
    if self.rate_type == RateType.CALENDAR_DAY:
        rate_array = Rates.to_stream_day(calendar_day_rates=rate_array, regularity=self._regularity.values)
    return rate_array.tolist()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVolumeRate.get_stream_day_values", props=["C09"])
def OilVolumeRate_get_stream_day_values_(self):
    return self._rate_values


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVolumeRate.get_periods", props=["C09"])
def OilVolumeRate_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingVolumeEmission.__init__", props=["C09"])
def VentingVolumeEmission_init(self, name, emission_factor):
    self.name = name
    self.emission_factor = emission_factor


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingVolume.__init__", props=["C09"])
def VentingVolume_init(self, oil_volume_rate, emissions):
    self.oil_volume_rate = oil_volume_rate
    self.emissions = emissions


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.__init__", props=["C09"])
def VentingEmitter_init(self, id, name, component_type, emitter_type, regularity):
    self._uuid = id
    self._name = name
    self.component_type = component_type
    self.emitter_type = emitter_type
    self.regularity = regularity


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.get_id", props=["C09"])
def VentingEmitter_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.name", props=["C09"])
def VentingEmitter_name(self):
    return self._name


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.get_emissions", props=["C09"])
def VentingEmitter_get_emissions(self):
    return {emission_name: TimeSeriesRate.from_timeseries_stream_day_rate(emission_rate, self.regularity.time_series) for emission_name, emission_rate in self._get_emissions().items()}


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.is_fuel_consumer", props=["C09"])
def VentingEmitter_is_fuel_consumer(self):
    return False


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.is_electricity_consumer", props=["C09"])
def VentingEmitter_is_electricity_consumer(self):
    return False


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.get_component_process_type", props=["C09"])
def VentingEmitter_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.get_name", props=["C09"])
def VentingEmitter_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.emitters.venting_emitter.VentingEmitter.is_provider", props=["C09"])
def VentingEmitter_is_provider(self):
    return False


@target("libecalc.domain.infrastructure.emitters.venting_emitter.DirectVentingEmitter.__init__", props=["C09"])
def DirectVentingEmitter_init(self, emissions, **kwargs):
    super().__init__(**kwargs)
    self.emissions = emissions
    self.emitter_type = VentingType.DIRECT_EMISSION


@target("libecalc.domain.infrastructure.emitters.venting_emitter.DirectVentingEmitter._get_emissions", props=["C09"])
def DirectVentingEmitter_get_emissions(self):
    emissions = {}
    for emission in self.emissions:
        emission_rate = emission.emission_rate.get_stream_day_values()
        unit = emission.emission_rate.unit
        emission_rate = unit.to(Unit.TONS_PER_DAY)(emission_rate)
        emissions[emission.name] = TimeSeriesStreamDayRate(periods=emission.emission_rate.get_periods(), values=emission_rate, unit=Unit.TONS_PER_DAY)
    return emissions


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVentingEmitter.__init__", props=["C09"])
def OilVentingEmitter_init(self, volume, **kwargs):
    super().__init__(**kwargs)
    self.volume = volume
    self.emitter_type = VentingType.OIL_VOLUME


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVentingEmitter._get_emissions", props=["C09"])
def OilVentingEmitter_get_emissions(self):
    oil_rates = self.get_oil_rates()
    emissions = {}
    for emission in self.volume.emissions:
        factors = self.volume.oil_volume_rate._time_series_expression.expression_evaluator.evaluate(Expression.setup_from_expression(value=emission.emission_factor))
        emission_rate = [oil_rate * factor for oil_rate, factor in zip(oil_rates, factors)]
        emission_rate = Unit.KILO_PER_DAY.to(Unit.TONS_PER_DAY)(emission_rate)
        emissions[emission.name] = TimeSeriesStreamDayRate(periods=self.volume.oil_volume_rate.get_periods(), values=emission_rate, unit=Unit.TONS_PER_DAY)
    return emissions


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVentingEmitter.get_oil_rates", props=["C09"])
def OilVentingEmitter_get_oil_rates(self):
    oil_rates = self.volume.oil_volume_rate.get_stream_day_values()
    unit = self.volume.oil_volume_rate.unit
    oil_rates = unit.to(Unit.STANDARD_CUBIC_METER_PER_DAY)(oil_rates)
    return oil_rates


@target("libecalc.domain.infrastructure.emitters.venting_emitter.OilVentingEmitter.get_storage_rates", props=["C09"])
def OilVentingEmitter_get_storage_rates(self):
    return TimeSeriesRate(periods=self.volume.oil_volume_rate.get_periods(), values=self.get_oil_rates(), unit=Unit.STANDARD_CUBIC_METER_PER_DAY, regularity=self.regularity.values, rate_type=RateType.STREAM_DAY)


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlVentingType", props=["C09"])
class YamlVentingTypeValues:
    OIL_VOLUME = 'OIL_VOLUME'
    DIRECT_EMISSION = 'DIRECT_EMISSION'


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlVentingVolumeEmission.check_name", props=["C09"])
def YamlVentingVolumeEmission_check_name(cls, name, info):
    return name.lower()


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlVentingEmission.check_name", props=["C09"])
def YamlVentingEmission_check_name(cls, name, info):
    return name.lower()


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlDirectTypeEmitter", props=["C09"])
class YamlDirectTypeEmitterValues:
    category = CategoryField(..., validate_default=True)


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlDirectTypeEmitter.component_type", props=["C09"])
def YamlDirectTypeEmitter_component_type(self):
    return ComponentType.VENTING_EMITTER


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlDirectTypeEmitter.id", props=["C09"])
def YamlDirectTypeEmitter_id(self):
    return generate_id(self.name)


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlDirectTypeEmitter.check_user_defined_category", props=["C09"])
def YamlDirectTypeEmitter_check_user_defined_category(cls, category, info):
    if category is not None:
        if category not in list(ConsumerUserDefinedCategoryType):
            name_context_string = ''
            if (name := info.data.get('name')) is not None:
                name_context_string = f'with the name {name}'
            if info.config is not None and 'title' in info.config:
                entity_name = info.config['title']
            else:
                entity_name = str(cls)
            raise ValueError()
    return category


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlOilTypeEmitter", props=["C09"])
class YamlOilTypeEmitterValues:
    category = CategoryField(..., validate_default=True)


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlOilTypeEmitter.component_type", props=["C09"])
def YamlOilTypeEmitter_component_type(self):
    return ComponentType.VENTING_EMITTER


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlOilTypeEmitter.id", props=["C09"])
def YamlOilTypeEmitter_id(self):
    return generate_id(self.name)


@target("libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter.YamlOilTypeEmitter.check_user_defined_category", props=["C09"])
def YamlOilTypeEmitter_check_user_defined_category(cls, category, info):
    if category is not None:
        if category not in list(ConsumerUserDefinedCategoryType):
            name_context_string = ''
            if (name := info.data.get('name')) is not None:
                name_context_string = f'with the name {name}'
            if info.config is not None and 'title' in info.config:
                entity_name = info.config['title']
            else:
                entity_name = str(cls)
            raise ValueError()
    return category


@target("libecalc.domain.hydrocarbon_export.HydrocarbonExport.__init__", props=["C09", "C14"])
def HydrocarbonExport_init(self, expression_evaluator, regularity, target_period, expression_input=None):
    self.expression_evaluator = expression_evaluator
    self.target_period = target_period
    try:
        self.temporal_expression = TemporalExpression(expression=expression_input or self.default_expression_value(), target_period=target_period, expression_evaluator=expression_evaluator)
    except (ValueError, InvalidExpressionError) as e:
        raise InvalidHydrocarbonExport(str(e))
    self.regularity = regularity


@target("libecalc.domain.hydrocarbon_export.HydrocarbonExport.default_expression_value", props=["C09", "C14"])
def HydrocarbonExport_default_expression_value():
    return 0


@target("libecalc.domain.hydrocarbon_export.HydrocarbonExport.time_series", props=["C09", "C14"])
def HydrocarbonExport_time_series(self):
    return TimeSeriesRate(periods=self.expression_evaluator.get_periods(), values=self.temporal_expression.evaluate(), unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.CALENDAR_DAY, regularity=self.regularity.time_series.values)


@target("libecalc.common.list.list_utils.transpose", props=["C05", "C09", "C10", "C12"])
def f_transpose[T](a):
    return list(map(list, zip(*a)))


@target("libecalc.common.list.list_utils.group_data_by_value_at_index", props=["C05", "C09", "C10", "C12"])
def f_group_data_by_value_at_index(index, row_based_data):
    if index < 0:
        raise IndexError()
    chart_grouped_by_index = defaultdict(list)
    for row in row_based_data:
        current_value = row[index]
        chart_grouped_by_index[current_value].append(row)
    return chart_grouped_by_index


@target("libecalc.common.list.list_utils.elementwise_sum", props=["C05", "C09", "C10", "C12"])
def f_elementwise_sum(*vectors):
    result = np.full_like(vectors[0], fill_value=0.0, dtype=float64)
    for vector in vectors:
        result = np.add(np.nan_to_num(result), np.nan_to_num(vector))
    return result


@target("libecalc.common.list.list_utils.elementwise_multiplication", props=["C05", "C09", "C10", "C12"])
def f_elementwise_multiplication(*vectors, periods=None):
    if periods is not None:
        result = np.full_like(periods.periods, fill_value=1.0, dtype=float64)
    else:
        result = np.full_like(vectors[0], fill_value=1.0, dtype=float64)
    for vector in vectors:
        result = np.multiply(result, vector)
    return result


@target("libecalc.common.list.list_utils.array_to_list", props=["C05", "C09", "C10", "C12"])
def f_array_to_list(result_array):
    if result_array is None:
        return None
    if isinstance(result_array, list):
        result = [array_to_list(array) for array in result_array]
        return [x for sublist in result if sublist is not None for x in sublist]
    elif isinstance(result_array, np.ndarray):
        if result_array.shape == ():
            return [result_array.item()]
        return cast(list[float], result_array.tolist())
    else:
        return []


@target("libecalc.common.list.list_utils.array_to_list", props=["C05", "C09", "C10", "C12"])
def f_array_to_list_(result_array):
    if result_array is None:
        return None
    if isinstance(result_array, list):
        result = [array_to_list(array) for array in result_array]
        return [x for sublist in result if sublist is not None for x in sublist]
    elif isinstance(result_array, np.ndarray):
        if result_array.shape == ():
            return [result_array.item()]
        return cast(list[float], result_array.tolist())
    else:
        return []


@target("libecalc.common.list.list_utils.array_to_list", props=["C05", "C09", "C10", "C12"])
def f_array_to_list__(result_array):
    if result_array is None:
        return None
    if isinstance(result_array, list):
        result = [array_to_list(array) for array in result_array]
        return [x for sublist in result if sublist is not None for x in sublist]
    elif isinstance(result_array, np.ndarray):
        if result_array.shape == ():
            return [result_array.item()]
        return cast(list[float], result_array.tolist())
    else:
        return []
