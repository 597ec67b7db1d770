# Reference equations (parsed by the checker, never executed).
import networkx as nx
import numpy as np
import pandas as pd
from _operator import attrgetter
from collections.abc import Sequence
from copy import deepcopy
from datetime import datetime
from decimal import Decimal
from functools import reduce
from libecalc.common.component_info.component_level import ComponentLevel
from libecalc.common.component_info.compressor import CompressorPressureType
from libecalc.common.component_type import ComponentType
from libecalc.common.errors.exceptions import DifferentLengthsError, EcalcError, IncompatibleDataError, MissingKeyError
from libecalc.common.list.list_utils import transpose
from libecalc.common.math.numbers import Numbers
from libecalc.common.temporal_model import TemporalModel
from libecalc.common.time_utils import Period, Periods, resample_periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, TimeSeries, TimeSeriesBoolean, TimeSeriesFloat, TimeSeriesRate, TimeSeriesVolumesCumulative
from libecalc.core.result.results import ConsumerSystemResult as CoreConsumerSystemResult, PumpResult
from libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer import FuelConsumerComponent
from libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component import GeneratorSetEnergyComponent
from libecalc.domain.infrastructure.energy_components.installation.installation import PowerConsumerComponent
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system import ConsumerSystemConsumerFunction
from libecalc.domain.installation import ElectricityProducer, StorageContainer
from libecalc.domain.process.compressor.core.base import CompressorWithTurbineModel
from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
from libecalc.domain.process.compressor.core.train.base import CompressorTrainModel
from libecalc.presentation.json_result.mapper import CompressorHelper, EmissionHelper, InstallationMapper, ModelResultHelper, OperationalSettingHelper, TimeSeriesHelper
from libecalc.presentation.json_result.result import EcalcModelResult
from libecalc.presentation.json_result.result.emission import EmissionResult
from libecalc.presentation.json_result.result.results import AssetResult, CompressorModelResult, CompressorModelStageResult, CompressorStreamConditionResult, ConsumerSystemResult, GenericConsumerResult, GenericModelResult, PumpModelResult, TurbineModelResult, VentingEmitterResult
from libecalc.presentation.json_result.result.tabular_time_series import TabularTimeSeries
from libecalc.presentation.json_result.serializable_chart import ChartCurveDTO, ChartDTO, OperationalPointDTO
from libecalc.presentation.simple_result.simple import ComponentID, SimpleComponentResult, SimpleEmissionResult, SimpleResultData, _create_empty_component, _subtract_list
from libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data import GenericFromDesignPointChartData
from libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data import GenericFromInputChartData
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from pydantic import BaseModel, TypeAdapter, ValidationError
from typing import assert_never, cast
from uuid import UUID


@target("libecalc.core.result.results.CommonResultBase.__init__", props=["C12"])
def CommonResultBase_init(self, periods, is_valid, energy_usage, power):
    self.periods = periods
    self.is_valid = is_valid
    self.energy_usage = energy_usage
    self.power = power


@target("libecalc.core.result.results.GeneratorSetResult.__init__", props=["C12"])
def GeneratorSetResult_init(self, periods, is_valid, energy_usage, power, id, power_capacity_margin):
    super().__init__(periods=periods, is_valid=is_valid, energy_usage=energy_usage, power=power)
    self.id = id
    self.power_capacity_margin = power_capacity_margin


@target("libecalc.core.result.results.ConcatenatedProperty.__init__", props=["C12"])
def ConcatenatedProperty_init(self, class_, fill_value, unit=None, accessor=None, allow_none=False, post_processor=None):
    self._class = class_
    self._unit = unit
    self._fill_value = fill_value
    self._allow_none = allow_none
    self._accessor = accessor
    self._post_processor = post_processor


@target("libecalc.core.result.results.ConcatenatedProperty.__set_name__", props=["C12"])
def ConcatenatedProperty_set_name(self, owner, name):
    self._name = name


@target("libecalc.core.result.results.ConcatenatedProperty.__get__", props=["C12"])
def ConcatenatedProperty_get(self, obj, objtype=None):
    results = obj._results

    def accessor(result):
        if self._accessor is None:
            value = getattr(result, self._name, None)
        else:
            value = self._accessor(result)
        if value is None:
            if self._allow_none:
                return None
            return [self._fill_value] * len(result.periods)
        else:
            return value
    time_series = []
    for result in results:
        if self._unit is None:
            unit = getattr(result, f'{self._name}_unit', None)
        else:
            unit = self._unit
        attribute = accessor(result)
        if attribute is None:
            return None
        time_series.append(self._class(values=attribute, periods=result.periods, unit=unit))
    res = reduce(lambda x, y: x.extend(y), time_series).fill_values_for_new_periods(new_periods=obj.periods, fillna=self._fill_value)
    if self._post_processor is not None:
        return self._post_processor(res)
    return res


@target("libecalc.core.result.results.GenericComponentResult.__init__", props=["C12"])
def GenericComponentResult_init(self, periods, id, results):
    self._results = results
    self.periods = periods
    self.id = id


@target("libecalc.core.result.results.GenericComponentResult.temporal_results", props=["C12"])
def GenericComponentResult_temporal_results(self):
    return self._results


@target("libecalc.core.result.results.convert_to_one_based_index", props=["C12"])
def f_convert_to_one_based_index(time_series):
    time_series.values = [value + 1 for value in time_series.values]
    return time_series


@target("libecalc.core.result.results.ConsumerSystemResult.__init__", props=["C12"])
def ConsumerSystemResult_init(self, periods, id, results):
    self._results = results
    self.periods = periods
    self.id = id


@target("libecalc.core.result.results.ConsumerSystemResult.temporal_results", props=["C12"])
def ConsumerSystemResult_temporal_results(self):
    return self._results


@target("libecalc.core.result.results.CompressorResult.__init__", props=["C12"])
def CompressorResult_init(self, periods, id, results):
    self._results = results
    self.periods = periods
    self.id = id


@target("libecalc.core.result.results.CompressorResult.temporal_results", props=["C12"])
def CompressorResult_temporal_results(self):
    return self._results


@target("libecalc.core.result.results.PumpResult.__init__", props=["C12"])
def PumpResult_init(self, periods, id, results):
    self._results = results
    self.periods = periods
    self.id = id


@target("libecalc.core.result.results.PumpResult.temporal_results", props=["C12"])
def PumpResult_temporal_results(self):
    return self._results


@target("libecalc.presentation.json_result.aggregators.aggregate_is_valid", props=["C12"])
def f_aggregate_is_valid(components):
    is_valid_arrays = [component.is_valid.values for component in components]
    return [all(is_valid_step) for is_valid_step in transpose(is_valid_arrays)]


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.map_rate", props=["C12"])
def ModelResultHelper_map_rate(rate_sm3_day, max_standard_rate, periods, regularity):
    if len(rate_sm3_day) > 0 and isinstance(rate_sm3_day[0], list):
        rate = TimeSeriesHelper.initialize_timeseries(periods=periods, values=rate_sm3_day[0], unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        maximum_rate = TimeSeriesHelper.initialize_timeseries(periods=periods, values=max_standard_rate if max_standard_rate is not None else [math.nan] * len(periods), unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        return (rate, maximum_rate)
    else:
        rate_sm3_day = cast(Sequence[float], rate_sm3_day)
        rate = TimeSeriesHelper.initialize_timeseries(periods=periods, values=rate_sm3_day, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        maximum_rate = TimeSeriesHelper.initialize_timeseries(periods=periods, values=max_standard_rate if max_standard_rate is not None else [math.nan] * len(periods), unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        return (rate, maximum_rate)


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.process_single_compressor_model", props=["C12"])
def ModelResultHelper_process_single_compressor_model(consumer, consumer_result, container_info, regularity):
    models = []
    for temporal_result in consumer_result.temporal_results:
        period = temporal_result.periods.period
        periods = temporal_result.periods
        temporal_result = temporal_result.energy_function_result

        def pressure_or_nan(pressure):
            if pressure is None:
                return TimeSeriesFloat(periods=periods, values=[math.nan] * len(periods), unit=Unit.BARA)
            return TimeSeriesFloat(periods=periods, values=pressure, unit=Unit.BARA)
        model_for_period = consumer.energy_usage_model.get_model(period)
        requested_inlet_pressure = pressure_or_nan(model_for_period.get_requested_inlet_pressure())
        requested_outlet_pressure = pressure_or_nan(model_for_period.get_requested_outlet_pressure())
        model_stage_results = CompressorHelper.process_stage_results(temporal_result, regularity, periods=periods)
        turbine_result = ModelResultHelper.process_turbine_result(model=temporal_result, regularity=regularity, periods=periods, name=consumer.name)
        inlet_stream_condition = CompressorHelper.process_inlet_stream_condition(periods, temporal_result.inlet_stream_condition, regularity)
        outlet_stream_condition = CompressorHelper.process_outlet_stream_condition(periods, temporal_result.outlet_stream_condition, regularity)
        rate, maximum_rate = ModelResultHelper.map_rate(temporal_result.rate_sm3_day, temporal_result.max_standard_rate, periods, regularity)
        energy_result = temporal_result.get_energy_result()
        energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values) if energy_result.power is not None else None
        models.append(CompressorModelResult(parent=container_info.name, name=container_info.name, componentType=container_info.component_type, component_level=ComponentLevel.MODEL, energy_usage=energy_usage, requested_inlet_pressure=requested_inlet_pressure, requested_outlet_pressure=requested_outlet_pressure, rate=rate, maximum_rate=maximum_rate, stage_results=model_stage_results, failure_status=list(temporal_result.failure_status) if temporal_result.failure_status is not None else None, periods=periods, is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=energy_result.is_valid), energy_usage_cumulative=energy_usage.to_volumes().cumulative(), power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power is not None else None, power=power, turbine_result=turbine_result, inlet_stream_condition=inlet_stream_condition, outlet_stream_condition=outlet_stream_condition))
    return models


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.process_compressor_models", props=["C12"])
def ModelResultHelper_process_compressor_models(energy_model, consumer_result, container_info, regularity):
    models = []
    component = energy_model.get_energy_container(container_info.id)
    energy_usage_model = component.energy_usage_model
    is_compressor_system = all((isinstance(model, ConsumerSystemConsumerFunction) for model in energy_usage_model.get_models()))
    is_compressor = all((isinstance(model, CompressorTrainModel | CompressorWithTurbineModel | CompressorModelSampled) for model in energy_usage_model.get_models()))
    if is_compressor:
        return ModelResultHelper.process_single_compressor_model(consumer=component, consumer_result=consumer_result, container_info=container_info, regularity=regularity)
    for temporal_result in consumer_result.temporal_results:
        period = temporal_result.periods.period
        periods = temporal_result.periods
        for system_consumer_result in temporal_result.consumer_results:
            energy_usage_model = cast(TemporalModel[ConsumerSystemConsumerFunction], component.energy_usage_model)
            requested_inlet_pressure = CompressorHelper.get_requested_compressor_pressures(energy_usage_model=energy_usage_model, pressure_type=CompressorPressureType.INLET_PRESSURE, name=system_consumer_result.name, operational_settings_used=consumer_result.operational_settings_used if container_info.component_type == ComponentType.COMPRESSOR_SYSTEM else None, model_periods=periods).for_period(period)
            requested_outlet_pressure = CompressorHelper.get_requested_compressor_pressures(energy_usage_model=energy_usage_model, pressure_type=CompressorPressureType.OUTLET_PRESSURE, name=system_consumer_result.name, operational_settings_used=consumer_result.operational_settings_used if container_info.component_type == ComponentType.COMPRESSOR_SYSTEM else None, model_periods=periods).for_period(period)
            compressor_train_result = system_consumer_result.result
            model_stage_results = CompressorHelper.process_stage_results(model=compressor_train_result, regularity=regularity, periods=periods)
            turbine_result = ModelResultHelper.process_turbine_result(model=compressor_train_result, regularity=regularity, periods=periods, name=system_consumer_result.name)
            inlet_stream_condition = CompressorHelper.process_inlet_stream_condition(periods, compressor_train_result.inlet_stream_condition, regularity)
            outlet_stream_condition = CompressorHelper.process_outlet_stream_condition(periods, compressor_train_result.outlet_stream_condition, regularity)
            rate, maximum_rate = ModelResultHelper.map_rate(rate_sm3_day=compressor_train_result.rate_sm3_day, max_standard_rate=compressor_train_result.max_standard_rate, periods=periods, regularity=regularity)
            energy_result = compressor_train_result.get_energy_result()
            energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
            power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values) if energy_result.power is not None else None
            models.append(CompressorModelResult(parent=container_info.name, name=system_consumer_result.name, componentType=ComponentType.COMPRESSOR, component_level=ComponentLevel.MODEL, energy_usage=energy_usage, requested_inlet_pressure=requested_inlet_pressure, requested_outlet_pressure=requested_outlet_pressure, rate=rate, maximum_rate=maximum_rate, stage_results=model_stage_results, failure_status=list(compressor_train_result.failure_status) if compressor_train_result.failure_status is not None else None, periods=periods, is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=energy_result.is_valid), energy_usage_cumulative=energy_usage.to_volumes().cumulative(), power=power if power is not None else None, power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power is not None else None, turbine_result=turbine_result, inlet_stream_condition=inlet_stream_condition, outlet_stream_condition=outlet_stream_condition))
    return models


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.process_pump_models", props=["C12"])
def ModelResultHelper_process_pump_models(consumer_result, container_info, regularity):
    if isinstance(consumer_result, PumpResult):
        models = []
        for model in consumer_result.temporal_results:
            periods = model.periods
            model = model.energy_function_result
            energy_result = model.get_energy_result()
            energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
            power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values) if energy_result.power is not None else None
            models.append(PumpModelResult(parent=container_info.name, name=container_info.name, componentType=container_info.component_type, component_level=ComponentLevel.MODEL, energy_usage=energy_usage, energy_usage_cumulative=energy_usage.to_volumes().cumulative(), is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=energy_result.is_valid), periods=periods, power=power if power is not None else None, power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power is not None else None, inlet_liquid_rate_m3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=model.rate, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), inlet_pressure_bar=TimeSeriesHelper.initialize_timeseries(periods=periods, values=model.suction_pressure, unit=Unit.BARA), outlet_pressure_bar=TimeSeriesHelper.initialize_timeseries(periods=periods, values=model.discharge_pressure, unit=Unit.BARA), operational_head=TimeSeriesHelper.initialize_timeseries(periods=periods, values=model.operational_head, unit=Unit.POLYTROPIC_HEAD_JOULE_PER_KG)))
        return models
    elif isinstance(consumer_result, CoreConsumerSystemResult):
        models = []
        for temporal_result in consumer_result.temporal_results:
            periods = temporal_result.periods
            for system_consumer_result in temporal_result.consumer_results:
                pump_model_result = system_consumer_result.result
                energy_result = pump_model_result.get_energy_result()
                energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
                power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values) if energy_result.power is not None else None
                models.append(PumpModelResult(parent=container_info.name, name=system_consumer_result.name, componentType=ComponentType.PUMP, component_level=ComponentLevel.MODEL, energy_usage=energy_usage, energy_usage_cumulative=energy_usage.to_volumes().cumulative(), is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=energy_result.is_valid), periods=periods, power=power if power is not None else None, power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power is not None else None, inlet_liquid_rate_m3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=pump_model_result.rate, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), inlet_pressure_bar=TimeSeriesHelper.initialize_timeseries(periods=periods, values=pump_model_result.suction_pressure, unit=Unit.BARA), outlet_pressure_bar=TimeSeriesHelper.initialize_timeseries(periods=periods, values=pump_model_result.discharge_pressure, unit=Unit.BARA), operational_head=TimeSeriesHelper.initialize_timeseries(periods=periods, values=pump_model_result.operational_head, unit=Unit.POLYTROPIC_HEAD_JOULE_PER_KG)))
        return models
    else:
        assert_never(consumer_result)


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.process_generic_models", props=["C12"])
def ModelResultHelper_process_generic_models(consumer_result, container_info, regularity):
    models = []
    for temporal_result in consumer_result.temporal_results:
        periods = temporal_result.periods
        model = temporal_result.energy_function_result
        energy_result = model.get_energy_result()
        energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
        power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values) if energy_result.power is not None else None
        models.append(GenericModelResult(parent=container_info.name, name=container_info.name, componentType=container_info.component_type, component_level=ComponentLevel.MODEL, periods=periods, is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=energy_result.is_valid), energy_usage=energy_usage, energy_usage_cumulative=energy_usage.to_volumes().cumulative(), power=power, power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power is not None else None))
    return models


@target("libecalc.presentation.json_result.mapper.ModelResultHelper.process_turbine_result", props=["C12"])
def ModelResultHelper_process_turbine_result(model, regularity, periods, name):
    if model.turbine_result is None:
        return None
    turbine_energy_result = model.turbine_result.get_energy_result()
    energy_usage = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=turbine_energy_result.energy_usage, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
    power = TimeSeriesHelper.initialize_timeseries_rate_from_quantity(periods=periods, quantity=turbine_energy_result.power, rate_type=RateType.STREAM_DAY, regularity=regularity.for_periods(periods).values)
    return TurbineModelResult(efficiency=TimeSeriesHelper.initialize_timeseries(periods=periods, values=model.turbine_result.efficiency, unit=Unit.FRACTION), energy_usage=energy_usage, energy_usage_unit=turbine_energy_result.energy_usage.unit, exceeds_maximum_load=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=model.turbine_result.exceeds_maximum_load), fuel_rate=energy_usage, is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=turbine_energy_result.is_valid), load=power, power=power, power_unit=turbine_energy_result.power.unit, periods=periods, name=name)


@target("libecalc.presentation.json_result.mapper.CompressorHelper.get_requested_compressor_pressures", props=["C12"])
def CompressorHelper_get_requested_compressor_pressures(energy_usage_model, pressure_type, name, model_periods, operational_settings_used=None):
    periods = []
    values = []
    for period, model in energy_usage_model.items():
        periods_in_period = period.get_periods(model_periods)
        for _period in periods_in_period:
            for compressor in model.consumers:
                if compressor.name == name:
                    operational_setting_used_id = OperationalSettingHelper.get_operational_setting_used_id(period=_period, operational_settings_used=operational_settings_used)
                    operational_setting = model.operational_settings[operational_setting_used_id]
                    compressor_nr = int([i for i, compressor in enumerate(model.consumers) if compressor.name == name][0])
                    if pressure_type.value == CompressorPressureType.INLET_PRESSURE:
                        pressures = operational_setting.suction_pressures[compressor_nr]
                    else:
                        pressures = operational_setting.discharge_pressures[compressor_nr]
                    if pressures is not None:
                        try:
                            idx = pressures.get_periods().periods.index(_period)
                            value = float(pressures.get_values()[idx])
                        except ValueError:
                            value = math.nan
                    else:
                        value = math.nan
                    periods.append(_period)
                    values.append(value)
    return TimeSeriesFloat(periods=Periods(periods), values=values, unit=Unit.BARA)


@target("libecalc.presentation.json_result.mapper.CompressorHelper.process_stage_results", props=["C12"])
def CompressorHelper_process_stage_results(model, regularity, periods):
    model_stage_results = []
    for i, stage_result in enumerate(model.stage_results):
        model_stage_result = CompressorModelStageResult(chart=ChartDTO.from_domain(stage_result.chart) if stage_result.chart is not None else None, chart_area_flags=list(stage_result.chart_area_flags), energy_usage_unit=stage_result.energy_usage_unit, power_unit=stage_result.power_unit, fluid_composition=stage_result.fluid_composition, asv_recirculation_loss_mw=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.asv_recirculation_loss_mw, unit=Unit.MEGA_WATT, rate_type=RateType.STREAM_DAY, regularity=regularity), head_exceeds_maximum=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=stage_result.head_exceeds_maximum), is_valid=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=stage_result.is_valid), polytropic_efficiency=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.polytropic_efficiency, unit=Unit.FRACTION), polytropic_enthalpy_change_before_choke_kJ_per_kg=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.polytropic_enthalpy_change_before_choke_kJ_per_kg, unit=Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG), polytropic_enthalpy_change_kJ_per_kg=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.polytropic_enthalpy_change_kJ_per_kg, unit=Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG), polytropic_head_kJ_per_kg=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.polytropic_head_kJ_per_kg, unit=Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG), energy_usage=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.energy_usage, unit=stage_result.energy_usage_unit, rate_type=RateType.STREAM_DAY, regularity=regularity), mass_rate_kg_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.mass_rate_kg_per_hr, unit=Unit.KILO_PER_HOUR), mass_rate_before_asv_kg_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.mass_rate_before_asv_kg_per_hr, unit=Unit.KILO_PER_HOUR), power=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.power, unit=stage_result.power_unit, rate_type=RateType.STREAM_DAY, regularity=regularity), pressure_is_choked=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=stage_result.pressure_is_choked), rate_exceeds_maximum=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=stage_result.rate_exceeds_maximum), rate_has_recirculation=TimeSeriesHelper.initialize_timeseries_bool(periods=periods, values=stage_result.rate_has_recirculation), speed=TimeSeriesHelper.initialize_timeseries(periods=periods, values=stage_result.speed, unit=Unit.SPEED_RPM), inlet_stream_condition=CompressorHelper.process_inlet_stream_condition(periods, stage_result.inlet_stream_condition, regularity), outlet_stream_condition=CompressorHelper.process_outlet_stream_condition(periods, stage_result.outlet_stream_condition, regularity), name=f'Stage {i + 1}', periods=periods)
        model_stage_results.append(model_stage_result)
    return model_stage_results


@target("libecalc.presentation.json_result.mapper.CompressorHelper.process_inlet_stream_condition", props=["C12"])
def CompressorHelper_process_inlet_stream_condition(periods, inlet_stream_condition, regularity):
    return CompressorStreamConditionResult(actual_rate_m3_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.actual_rate_m3_per_hr, unit=Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR), actual_rate_before_asv_m3_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.actual_rate_before_asv_m3_per_hr, unit=Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR), standard_rate_sm3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.standard_rate_sm3_per_day, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), standard_rate_before_asv_sm3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.standard_rate_before_asv_sm3_per_day, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), kappa=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.kappa, unit=Unit.NONE), density_kg_per_m3=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.density_kg_per_m3, unit=Unit.KG_M3), pressure=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.pressure, unit=Unit.BARA), temperature_kelvin=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.temperature_kelvin, unit=Unit.KELVIN), z=TimeSeriesHelper.initialize_timeseries(periods=periods, values=inlet_stream_condition.z, unit=Unit.NONE), periods=periods, name='Inlet stream condition')


@target("libecalc.presentation.json_result.mapper.CompressorHelper.process_outlet_stream_condition", props=["C12"])
def CompressorHelper_process_outlet_stream_condition(periods, outlet_stream_condition, regularity):
    return CompressorStreamConditionResult(actual_rate_m3_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.actual_rate_m3_per_hr, unit=Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR), actual_rate_before_asv_m3_per_hr=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.actual_rate_before_asv_m3_per_hr, unit=Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR), standard_rate_sm3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.standard_rate_sm3_per_day, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), standard_rate_before_asv_sm3_per_day=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.standard_rate_before_asv_sm3_per_day, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=regularity), kappa=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.kappa, unit=Unit.NONE), density_kg_per_m3=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.density_kg_per_m3, unit=Unit.KG_M3), pressure=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.pressure, unit=Unit.BARA), temperature_kelvin=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.temperature_kelvin, unit=Unit.KELVIN), z=TimeSeriesHelper.initialize_timeseries(periods=periods, values=outlet_stream_condition.z, unit=Unit.NONE), periods=periods, name='Outlet stream condition')


@target("libecalc.presentation.json_result.mapper.EmissionHelper.to_full_result", props=["C12"])
def EmissionHelper_to_full_result(emissions):
    return {key: EmissionResult(name=key, periods=emissions[key].periods, rate=emissions[key], cumulative=emissions[key].to_volumes().cumulative()) for key in emissions}


@target("libecalc.presentation.json_result.mapper.TimeSeriesHelper.initialize_timeseries_bool", props=["C12"])
def TimeSeriesHelper_initialize_timeseries_bool(values, periods):
    if not isinstance(values, list):
        if isinstance(values, np.ndarray):
            values = values.tolist()
        else:
            values = list(values)
    return TimeSeriesBoolean(periods=periods, values=values, unit=Unit.NONE)


@target("libecalc.presentation.json_result.mapper.TimeSeriesHelper.initialize_timeseries_rate_from_quantity", props=["C12"])
def TimeSeriesHelper_initialize_timeseries_rate_from_quantity(quantity, periods, rate_type, regularity):
    return TimeSeriesRate(periods=periods, values=quantity.values, unit=quantity.unit, rate_type=rate_type, regularity=regularity)


@target("libecalc.presentation.json_result.mapper.TimeSeriesHelper.initialize_timeseries", props=["C12"])
def TimeSeriesHelper_initialize_timeseries(periods, values, unit, rate_type=None, regularity=None):
    if values is None:
        values = [np.nan] * len(periods)
    elif isinstance(values, np.ndarray):
        values = values.tolist()
    elif isinstance(values, TimeSeriesFloat) or isinstance(values, TimeSeriesRate) or isinstance(values, TimeSeriesBoolean):
        return values
    elif not isinstance(values, list):
        values = list(values)
    values = cast(list[float], values)
    if rate_type:
        if isinstance(regularity, list):
            regularity_values = regularity
        elif regularity and hasattr(regularity, 'for_periods'):
            regularity_values = regularity.for_periods(periods).values
        else:
            regularity_values = None
        return TimeSeriesRate(periods=periods, values=values, unit=unit, rate_type=rate_type, regularity=regularity_values)
    else:
        return TimeSeriesFloat(periods=periods, values=values, unit=unit)


@target("libecalc.presentation.json_result.mapper.TimeSeriesHelper.convert_to_cumulative", props=["C12"])
def TimeSeriesHelper_convert_to_cumulative(unit, timeseries=None):
    return timeseries.to_volumes().to_unit(unit).cumulative() if timeseries else None


@target("libecalc.presentation.json_result.mapper.InstallationMapper.__init__", props=["C12"])
def InstallationMapper_init(self, model):
    self._model = model


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_parent", props=["C12"])
def InstallationMapper_get_parent(self, container_id):
    energy_model = self._model.get_energy_model()
    parent_id = energy_model.get_parent(container_id=container_id)
    parent_container_info = self._model.get_container_info(parent_id)
    return parent_container_info.name


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_emissions", props=["C12"])
def InstallationMapper_get_emissions(self, container_id):
    emitter = self._model.get_emitter(container_id)
    if emitter is None:
        return None
    return {emission_name: emission_rate.to_calendar_day() for emission_name, emission_rate in emitter.get_emissions().items()}


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_fuel_consumption_rate", props=["C12"])
def InstallationMapper_get_fuel_consumption_rate(self, container_id):
    fuel_consumer = self._model.get_fuel_consumer(container_id=container_id)
    if fuel_consumer is None:
        return None
    return fuel_consumer.get_fuel_consumption().rate.to_calendar_day()


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_power_consumption_rate", props=["C12"])
def InstallationMapper_get_power_consumption_rate(self, container_id):
    power_consumer = self._model.get_power_consumer(container_id=container_id)
    if power_consumer is None:
        return None
    return power_consumer.get_power_consumption().to_stream_day()


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_periods", props=["C12"])
def InstallationMapper_get_periods(self):
    return self._model.variables.get_periods()


@target("libecalc.presentation.json_result.mapper.InstallationMapper.get_zero_fuel_consumption_rate", props=["C12"])
def InstallationMapper_get_zero_fuel_consumption_rate(self):
    periods = self.get_periods()
    number_of_periods = len(periods)
    return TimeSeriesRate(values=[0] * number_of_periods, periods=periods, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.CALENDAR_DAY, regularity=[1] * number_of_periods)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_venting_emitter", props=["C12"])
def InstallationMapper_map_venting_emitter(self, container_id):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_zero_fuel_consumption_rate()
    power_rate = None
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative()
    power_cumulative = None
    energy_usage = fuel_rate or power_rate
    energy_usage_cumulative = fuel_volume_cumulative or power_cumulative
    return VentingEmitterResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_rate, energy_usage=energy_usage)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_pump", props=["C12"])
def InstallationMapper_map_pump(self, container_id, inlet_liquid_rate_m3_per_day, inlet_pressure_bar, outlet_pressure_bar, operational_head):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_fuel_consumption_rate(container_id=container_id)
    power_rate = self.get_power_consumption_rate(container_id=container_id)
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative() if fuel_rate else None
    power_cumulative = power_rate.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_rate else None
    energy_usage = fuel_rate or power_rate
    energy_usage_cumulative = fuel_volume_cumulative or power_cumulative
    return libecalc.presentation.json_result.result.results.PumpResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_rate, energy_usage=energy_usage, inlet_liquid_rate_m3_per_day=inlet_liquid_rate_m3_per_day, inlet_pressure_bar=inlet_pressure_bar, outlet_pressure_bar=outlet_pressure_bar, operational_head=operational_head)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_consumer_system", props=["C12"])
def InstallationMapper_map_consumer_system(self, container_id):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_fuel_consumption_rate(container_id=container_id)
    power_rate = self.get_power_consumption_rate(container_id=container_id)
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative() if fuel_rate else None
    power_cumulative = power_rate.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_rate else None
    energy_usage = fuel_rate or power_rate
    energy_usage_cumulative = fuel_volume_cumulative or power_cumulative
    return ConsumerSystemResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_rate, energy_usage=energy_usage, operational_settings_used=self._model.get_operational_settings_used(container_id), operational_settings_results=None)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_generator_set", props=["C12"])
def InstallationMapper_map_generator_set(self, container_id):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_fuel_consumption_rate(container_id=container_id)
    electricity_producer = self._model.get_electricity_producer(container_id)
    power_requirement_rate = electricity_producer.get_power_requirement()
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative()
    power_cumulative = power_requirement_rate.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative()
    power_capacity_margin = electricity_producer.get_power_capacity_margin()
    energy_usage = fuel_rate
    energy_usage_cumulative = fuel_volume_cumulative
    return libecalc.presentation.json_result.result.results.GeneratorSetResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_requirement_rate, energy_usage=energy_usage, power_capacity_margin=power_capacity_margin)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_generic_component", props=["C12"])
def InstallationMapper_map_generic_component(self, container_id):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_fuel_consumption_rate(container_id=container_id)
    power_rate = self.get_power_consumption_rate(container_id=container_id)
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative() if fuel_rate else None
    power_cumulative = power_rate.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_rate else None
    energy_usage = fuel_rate or power_rate
    energy_usage_cumulative = fuel_volume_cumulative or power_cumulative
    return GenericConsumerResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_rate, energy_usage=energy_usage)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_compressor", props=["C12"])
def InstallationMapper_map_compressor(self, container_id, recirculation_loss, rate_exceeds_maximum):
    container_info = self._model.get_container_info(container_id)
    emissions = self.get_emissions(container_id)
    fuel_rate = self.get_fuel_consumption_rate(container_id=container_id)
    power_rate = self.get_power_consumption_rate(container_id=container_id)
    fuel_volume_cumulative = fuel_rate.to_volumes().cumulative() if fuel_rate else None
    power_cumulative = power_rate.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_rate else None
    energy_usage = fuel_rate or power_rate
    energy_usage_cumulative = fuel_volume_cumulative or power_cumulative
    return libecalc.presentation.json_result.result.results.CompressorResult(id=container_info.name, name=container_info.name, parent=self.get_parent(container_id), component_level=container_info.component_level, componentType=container_info.component_type, is_valid=self._model.get_validity(container_info.id), periods=energy_usage.periods, emissions=EmissionHelper.to_full_result(emissions=emissions) if emissions is not None else {}, energy_usage_cumulative=energy_usage_cumulative, power_cumulative=power_cumulative, power=power_rate, energy_usage=energy_usage, recirculation_loss=recirculation_loss, rate_exceeds_maximum=rate_exceeds_maximum)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_installation", props=["C12"])
def InstallationMapper_map_installation(self, installation, parent_name):
    expression_evaluator = installation.expression_evaluator
    regularity = installation.regularity
    hydrocarbon_export_rate = installation.hydrocarbon_export.time_series
    installation_node_info = self._model.get_container_info(installation.get_id())
    power_electrical = self.aggregate_power_consumption(installation.get_electrical_power_consumers())
    power_mechanical = self.aggregate_power_consumption(installation.get_mechanical_power_consumers())
    power = power_electrical + power_mechanical if power_electrical and power_mechanical else power_mechanical or power_electrical
    fuel_consumption = self.aggregate_fuel_consumption(installation.get_fuel_consumers())
    return libecalc.presentation.json_result.result.InstallationResult(id=installation_node_info.name, name=installation_node_info.name, parent=parent_name, component_level=installation_node_info.component_level, componentType=installation_node_info.component_type, periods=expression_evaluator.get_periods(), is_valid=self._model.get_validity(installation.get_id()), power=power, power_cumulative=power.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power else None, power_electrical=power_electrical, power_electrical_cumulative=power_electrical.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_electrical else None, power_mechanical=power_mechanical, power_mechanical_cumulative=power_mechanical.to_volumes().to_unit(Unit.GIGA_WATT_HOURS).cumulative() if power_mechanical else None, energy_usage=fuel_consumption, energy_usage_cumulative=fuel_consumption.to_volumes().cumulative(), hydrocarbon_export_rate=hydrocarbon_export_rate, emissions=EmissionHelper.to_full_result(self.aggregate_emissions(installation.get_emitters())), regularity=regularity.time_series)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.map_container", props=["C12"])
def InstallationMapper_map_container(self, container_id):
    model = self._model
    energy_model = model.get_energy_model()
    energy_container = energy_model.get_energy_container(container_id)
    container_info = model.get_container_info(container_id)
    process_type = energy_container.get_component_process_type()
    regularity = model.get_regularity(container_id).time_series
    if process_type == ComponentType.COMPRESSOR:
        result = model.get_container_result(container_id)
        compressor_models = ModelResultHelper.process_compressor_models(energy_model=energy_model, consumer_result=result, container_info=container_info, regularity=regularity)
        sub_component = self.map_compressor(container_id=container_id, recirculation_loss=TimeSeriesRate.from_timeseries_stream_day_rate(result.recirculation_loss, regularity=regularity), rate_exceeds_maximum=result.rate_exceeds_maximum)
        return EcalcModelResult(component_result=sub_component, models=compressor_models, sub_components=[])
    elif process_type == ComponentType.PUMP:
        result = model.get_container_result(container_id)
        pump_models = ModelResultHelper.process_pump_models(consumer_result=result, container_info=container_info, regularity=model.get_regularity(container_id).time_series)
        sub_component = self.map_pump(container_id=container_id, inlet_liquid_rate_m3_per_day=TimeSeriesRate.from_timeseries_stream_day_rate(result.inlet_liquid_rate_m3_per_day, regularity=regularity), inlet_pressure_bar=result.inlet_pressure_bar, outlet_pressure_bar=result.outlet_pressure_bar, operational_head=result.operational_head)
        return EcalcModelResult(component_result=sub_component, models=pump_models, sub_components=[])
    elif process_type == ComponentType.COMPRESSOR_SYSTEM or process_type == ComponentType.PUMP_SYSTEM:
        sub_component = self.map_consumer_system(container_id)
        result = model.get_container_result(container_id)
        models = []
        if process_type == ComponentType.COMPRESSOR_SYSTEM:
            models.extend(ModelResultHelper.process_compressor_models(energy_model=energy_model, consumer_result=result, container_info=container_info, regularity=regularity))
        else:
            models.extend(ModelResultHelper.process_pump_models(consumer_result=result, container_info=container_info, regularity=regularity))
        return EcalcModelResult(component_result=sub_component, models=models, sub_components=[])
    elif process_type == ComponentType.GENERIC:
        sub_component = self.map_generic_component(container_id)
        result = model.get_container_result(container_id)
        generic_models = ModelResultHelper.process_generic_models(consumer_result=result, container_info=container_info, regularity=regularity)
        return EcalcModelResult(component_result=sub_component, models=generic_models, sub_components=[])
    elif process_type == ComponentType.GENERATOR_SET:
        sub_component = self.map_generator_set(container_id)
        ecalc_model_result = EcalcModelResult(component_result=sub_component, models=[], sub_components=[])
        for sub_container_id in energy_model.get_consumers(container_id):
            sub_container_result = self.map_container(sub_container_id)
            ecalc_model_result.sub_components.append(sub_container_result.component_result)
            ecalc_model_result.sub_components.extend(sub_container_result.sub_components)
            ecalc_model_result.models.extend(sub_container_result.models)
        return ecalc_model_result
    elif process_type == ComponentType.VENTING_EMITTER:
        sub_component = self.map_venting_emitter(container_id)
        return EcalcModelResult(component_result=sub_component, sub_components=[], models=[])
    else:
        assert_never(process_type)


@target("libecalc.presentation.json_result.mapper.InstallationMapper.aggregate_emissions", props=["C12"])
def InstallationMapper_aggregate_emissions(emitters):
    emission_rates = {}
    for emitter in emitters:
        emissions = emitter.get_emissions()
        for emission_name, emission_rate in emissions.items():
            if emission_name not in emission_rates:
                emission_rates[emission_name] = emission_rate.to_calendar_day()
            else:
                emission_rates[emission_name] += emission_rate.to_calendar_day()
    return emission_rates


@target("libecalc.presentation.json_result.mapper.InstallationMapper.aggregate_power_consumption", props=["C12"])
def InstallationMapper_aggregate_power_consumption(power_consumers):
    if len(power_consumers) == 0:
        return None
    return reduce(operator.add, [consumer.get_power_consumption().to_unit(Unit.MEGA_WATT) for consumer in power_consumers])


@target("libecalc.presentation.json_result.mapper.InstallationMapper.aggregate_fuel_consumption", props=["C12"])
def InstallationMapper_aggregate_fuel_consumption(self, fuel_consumers):
    if len(fuel_consumers) == 0:
        return self.get_zero_fuel_consumption_rate()
    return reduce(operator.add, [consumer.get_fuel_consumption().rate.to_unit(Unit.STANDARD_CUBIC_METER_PER_DAY).to_calendar_day() for consumer in fuel_consumers])


@target("libecalc.presentation.json_result.mapper.OperationalSettingHelper.get_operational_setting_used_id", props=["C12"])
def OperationalSettingHelper_get_operational_setting_used_id(period, operational_settings_used):
    period_index = operational_settings_used.periods.periods.index(period)
    operational_setting_id = operational_settings_used.values[period_index]
    return operational_setting_id - 1


@target("libecalc.presentation.json_result.mapper.get_asset_result", props=["C12"], modular=True)
def f_get_asset_result(model):
    installation_mapper = InstallationMapper(model)
    energy_model = model.get_energy_model()
    hydrocarbon_export_rates = []
    fuel_consumers = []
    mechanical_power_consumers = []
    electrical_power_consumers = []
    emitters = []
    sub_components = []
    models = []
    for installation in model.get_installations():
        hydrocarbon_export_rates.append(installation.hydrocarbon_export.time_series)
        fuel_consumers.extend(installation.get_fuel_consumers())
        mechanical_power_consumers.extend(installation.get_mechanical_power_consumers())
        electrical_power_consumers.extend(installation.get_electrical_power_consumers())
        emitters.extend(installation.get_emitters())
        mapped_installation = installation_mapper.map_installation(installation, parent_name=model.get_name())
        if mapped_installation is not None:
            sub_components.append(mapped_installation)
        for sub_container_id in energy_model.get_consumers(installation.get_id()):
            ecalc_model_result = installation_mapper.map_container(sub_container_id)
            sub_components.append(ecalc_model_result.component_result)
            sub_components.extend(ecalc_model_result.sub_components)
            models.extend(ecalc_model_result.models)
    asset_hydrocarbon_export_rate_core = reduce(operator.add, hydrocarbon_export_rates)
    asset_power_electrical_core = installation_mapper.aggregate_power_consumption(electrical_power_consumers)
    asset_power_mechanical_core = installation_mapper.aggregate_power_consumption(mechanical_power_consumers)
    asset_power_core = asset_power_mechanical_core + asset_power_electrical_core if asset_power_mechanical_core and asset_power_electrical_core else asset_power_mechanical_core or asset_power_electrical_core
    asset_power_cumulative = TimeSeriesHelper.convert_to_cumulative(Unit.GIGA_WATT_HOURS, asset_power_core)
    asset_power_electrical_cumulative = TimeSeriesHelper.convert_to_cumulative(Unit.GIGA_WATT_HOURS, asset_power_electrical_core)
    asset_power_mechanical_cumulative = TimeSeriesHelper.convert_to_cumulative(Unit.GIGA_WATT_HOURS, asset_power_mechanical_core)
    asset_energy_usage_core = installation_mapper.aggregate_fuel_consumption(fuel_consumers=fuel_consumers)
    asset_energy_usage_cumulative = asset_energy_usage_core.to_volumes().cumulative()
    asset_node_info = model.get_container_info(energy_model.get_root())
    model_result = AssetResult(id=asset_node_info.name, name=asset_node_info.name, component_level=asset_node_info.component_level, componentType=asset_node_info.component_type, periods=model.variables.get_periods(), is_valid=model.get_validity(energy_model.get_root()), power=asset_power_core, power_cumulative=asset_power_cumulative, power_electrical=asset_power_electrical_core, power_electrical_cumulative=asset_power_electrical_cumulative, power_mechanical=asset_power_mechanical_core, power_mechanical_cumulative=asset_power_mechanical_cumulative, energy_usage=asset_energy_usage_core, energy_usage_cumulative=asset_energy_usage_cumulative, hydrocarbon_export_rate=asset_hydrocarbon_export_rate_core, emissions=EmissionHelper.to_full_result(InstallationMapper.aggregate_emissions(emitters)))
    return libecalc.presentation.json_result.result.results.EcalcModelResult(component_result=model_result, sub_components=sub_components, models=models)


@target("libecalc.presentation.json_result.result.emission.EmissionResult.get_cumulative_kg", props=["C12"])
def EmissionResult_get_cumulative_kg(self):
    return self.rate.to_volumes().to_unit(Unit.KILO).cumulative()


@target("libecalc.presentation.json_result.result.results.NodeInfo", props=["C12"])
class NodeInfoValues:
    parent = None


@target("libecalc.presentation.json_result.result.results.CommonResultBase", props=["C12"])
class CommonResultBaseValues:
    power = None
    power_cumulative = None


@target("libecalc.presentation.json_result.result.results.AssetResult", props=["C12"])
class AssetResultValues:
    power_electrical = None
    power_electrical_cumulative = None
    power_mechanical = None
    power_mechanical_cumulative = None


@target("libecalc.presentation.json_result.result.results.ConsumerSystemResult", props=["C12"])
class ConsumerSystemResultValues:
    consumer_type = None
    operational_settings_used = None
    operational_settings_results = None


@target("libecalc.presentation.json_result.result.results.ConsumerSystemResult.set_consumer_type_based_on_component_type_if_possible", props=["C12"])
def ConsumerSystemResult_set_consumer_type_based_on_component_type_if_possible(cls, consumer_type, info):
    component_type = info.data.get('componentType')
    if consumer_type is None:
        if component_type == ComponentType.PUMP_SYSTEM:
            return ComponentType.PUMP
        elif component_type == ComponentType.COMPRESSOR_SYSTEM:
            return ComponentType.COMPRESSOR
    return consumer_type


@target("libecalc.presentation.json_result.result.results.ConsumerSystemResult.set_none", props=["C12"])
def ConsumerSystemResult_set_none(cls, operational_settings_results):
    return None


@target("libecalc.presentation.json_result.result.results.PumpResult", props=["C12"])
class PumpResultValues:
    streams = None


@target("libecalc.presentation.json_result.result.results.CompressorResult", props=["C12"])
class CompressorResultValues:
    streams = None


@target("libecalc.presentation.json_result.result.results.PumpModelResult", props=["C12"])
class PumpModelResultValues:
    inlet_liquid_rate_m3_per_day = None
    inlet_pressure_bar = None
    outlet_pressure_bar = None
    operational_head = None


@target("libecalc.presentation.json_result.result.results.CompressorModelStageResult.set_invalid_chart_to_none", props=["C12"])
def CompressorModelStageResult_set_invalid_chart_to_none(cls, chart):
    try:
        valid_chart = ChartDTO.model_validate(chart)
        return valid_chart
    except ValidationError:
        return None


@target("libecalc.presentation.json_result.result.results.CompressorModelResult", props=["C12"])
class CompressorModelResultValues:
    turbine_result = None


@target("libecalc.presentation.json_result.result.results.OperationalSettingResultBase", props=["C12"])
class OperationalSettingResultBaseValues:
    power = None


@target("libecalc.presentation.json_result.result.results.CompressorOperationalSettingResult", props=["C12"])
class CompressorOperationalSettingResultValues:
    max_standard_rate = None
    turbine_result = None


@target("libecalc.presentation.json_result.result.results.PumpOperationalSettingResult", props=["C12"])
class PumpOperationalSettingResultValues:
    inlet_liquid_rate_m3_per_day = None
    inlet_pressure_bar = None
    outlet_pressure_bar = None
    operational_head = None


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.sort_sub_components", props=["C12"])
def EcalcModelResult_sort_sub_components(cls, sub_components):
    return sorted(sub_components, key=attrgetter('componentType', 'name'))


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.sort_models", props=["C12"])
def EcalcModelResult_sort_models(cls, models):
    return sorted(models, key=attrgetter('componentType', 'name'))


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.periods", props=["C12"])
def EcalcModelResult_periods(self):
    return self.component_result.periods


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.components", props=["C12"])
def EcalcModelResult_components(self):
    return [self.component_result, *self.sub_components]


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.get_components", props=["C12"])
def EcalcModelResult_get_components(self, component_ids):
    return [component for component in self.components if component.id in component_ids]


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.get_component_by_name", props=["C12"])
def EcalcModelResult_get_component_by_name(self, component_name):
    components = [component for component in self.components if component.name == component_name]
    if not components:
        return None
    if len(components) > 1:
        pass
    return components[0]


@target("libecalc.presentation.json_result.result.results.EcalcModelResult.resample", props=["C12"])
def EcalcModelResult_resample(self, freq):
    return self.__class__(component_result=self.component_result.resample(freq), sub_components=[sub_component.resample(freq) for sub_component in self.sub_components], models=[model.resample(freq) for model in self.models])


@target("libecalc.presentation.json_result.result.tabular_time_series.with_timesteps", props=["C12"])
def f_with_timesteps(v, handler, info):
    context = info.context
    data = handler(v, info)
    if context:
        include_timesteps = context.get('include_timesteps', False)
        if include_timesteps:
            start_dates = v.start_dates
            type_adapter = TypeAdapter(list[datetime])
            if info.mode == 'json':
                data['timesteps'] = type_adapter.dump_json(start_dates)
            else:
                data['timesteps'] = type_adapter.dump_python(start_dates)
    return data


@target("libecalc.presentation.json_result.result.tabular_time_series.TabularTimeSeries.to_dataframe", props=["C12"])
def TabularTimeSeries_to_dataframe(self, prefix=None):
    periods = self.periods
    df = pd.DataFrame(index=periods.start_dates)
    for attribute_name, attribute_value in self.__dict__.items():
        if isinstance(attribute_value, TimeSeries):
            unit_value = attribute_value.unit
            if isinstance(attribute_value, TimeSeriesRate):
                unit_extension = 'sd' if attribute_value.rate_type == RateType.STREAM_DAY else 'cd'
                if attribute_value.unit == Unit.MEGA_WATT:
                    unit_value = unit_value.replace(Unit.MEGA_WATT, f'{Unit.MEGA_WATT} ({unit_extension})')
                else:
                    unit_value = unit_value.replace('/d', f'/{unit_extension}')
            elif isinstance(attribute_value, TimeSeriesVolumesCumulative):
                unit_value = unit_value.replace(attribute_value.unit, f'{attribute_value.unit} (cd)')
            column_name = f'{attribute_name}[{unit_value}]'
            if isinstance(attribute_value, TimeSeriesBoolean):
                values = [int(v) for v in attribute_value.values]
            else:
                values = attribute_value.values
            timeseries_df = pd.DataFrame({column_name: values}, index=attribute_value.periods.start_dates)
            df = df.join(timeseries_df)
        elif isinstance(attribute_value, list):
            if len(attribute_value) > 0 and all((isinstance(item, TabularTimeSeries) for item in attribute_value)):
                for item in attribute_value:
                    tabular_df = item.to_dataframe(prefix=item.name)
                    df = df.join(tabular_df)
        elif isinstance(attribute_value, dict) and len(attribute_value) > 0 and all((isinstance(item, TabularTimeSeries) for item in attribute_value.values())):
            for item in attribute_value.values():
                tabular_df = item.to_dataframe(prefix=item.name)
                df = df.join(tabular_df)
    if prefix is not None:
        df = df.add_prefix(prefix=f'{prefix}.')
    return df


@target("libecalc.presentation.json_result.result.tabular_time_series.TabularTimeSeries.resample", props=["C12"])
def TabularTimeSeries_resample(self, freq):
    if freq == freq.NONE:
        return self.model_copy()
    resampled = self.model_copy()
    for attribute, values in self.__dict__.items():
        if isinstance(values, TimeSeries) or isinstance(values, TabularTimeSeries):
            resampled.__setattr__(attribute, values.resample(freq=freq))
        elif isinstance(values, list):
            if len(values) > 0 and all((isinstance(item, TabularTimeSeries) for item in values)):
                resampled.__setattr__(attribute, [item.resample(freq) for item in values])
        elif isinstance(values, dict):
            if len(values) > 0 and all((isinstance(item, TabularTimeSeries) for item in values.values())):
                resampled.__setattr__(attribute, {key: item.resample(freq) for key, item in values.items()})
            else:
                pass
        else:
            pass
    resampled.periods = resample_periods(self.periods, frequency=freq)
    return resampled


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.validate_equal_lengths_and_sort", props=["C12"])
def ChartCurveDTO_validate_equal_lengths_and_sort(self):
    rate = self.rate_actual_m3_hour
    head = self.polytropic_head_joule_per_kg
    efficiency = self.efficiency_fraction
    if not len(rate) == len(head) == len(efficiency):
        raise ValueError()
    if not len(rate) > 1:
        raise ValueError()
    array = np.asarray([rate, head, efficiency]).T
    array_sorted = array[array[:, 0].argsort()]
    self.rate_actual_m3_hour = list(array_sorted[:, 0])
    self.polytropic_head_joule_per_kg = list(array_sorted[:, 1])
    self.efficiency_fraction = list(array_sorted[:, 2])
    if len(set(self.rate_actual_m3_hour)) != len(self.rate_actual_m3_hour):
        duplicate_rates = {x for x in self.rate_actual_m3_hour if self.rate_actual_m3_hour.count(x) > 1}
    if not np.all(np.diff(np.asarray(self.polytropic_head_joule_per_kg)) <= 0):
        heads = self.polytropic_head_joule_per_kg
        rates = self.rate_actual_m3_hour
    return self


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.rate", props=["C12"])
def ChartCurveDTO_rate(self):
    return self.rate_actual_m3_hour


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.head", props=["C12"])
def ChartCurveDTO_head(self):
    return self.polytropic_head_joule_per_kg


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.efficiency", props=["C12"])
def ChartCurveDTO_efficiency(self):
    return self.efficiency_fraction


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.speed", props=["C12"])
def ChartCurveDTO_speed(self):
    return self.speed_rpm


@target("libecalc.presentation.json_result.serializable_chart.ChartCurveDTO.from_domain", props=["C12"])
def ChartCurveDTO_from_domain(cls, chart_curve):
    return ChartCurveDTO(speed_rpm=chart_curve.speed, rate_actual_m3_hour=chart_curve.rate, polytropic_head_joule_per_kg=chart_curve.head, efficiency_fraction=chart_curve.efficiency)


@target("libecalc.presentation.json_result.serializable_chart.ChartDTO", props=["C12"])
class ChartDTOValues:
    control_margin_line = None
    control_margin = None
    design_rate = None
    design_head = None


@target("libecalc.presentation.json_result.serializable_chart.ChartDTO.from_domain", props=["C12"])
def ChartDTO_from_domain(cls, chart):
    design_rate = None
    design_head = None
    if isinstance(chart, GenericFromDesignPointChartData | GenericFromInputChartData):
        design_head = chart.design_head
        design_rate = chart.design_rate
    control_margin = None
    control_margin_line = []
    if isinstance(chart, UserDefinedChartData):
        control_margin = chart.control_margin
        if control_margin is not None and control_margin > 0:
            adjusted_curves = chart.get_adjusted_curves()
            for curve in adjusted_curves:
                control_margin_line.append(OperationalPointDTO(rate_actual_m3_hour=curve.rate_actual_m3_hour[0], polytropic_head_joule_per_kg=curve.polytropic_head_joule_per_kg[0], efficiency_fraction=curve.efficiency_fraction[0]))
    return ChartDTO(curves=[ChartCurveDTO.from_domain(chart_curve=curve) for curve in chart.get_original_curves()], design_rate=design_rate, design_head=design_head, control_margin=control_margin, control_margin_line=control_margin_line if control_margin_line else None)


@target("libecalc.presentation.simple_result.simple.SimpleEmissionResult.convert_time_series", props=["C12"])
def SimpleEmissionResult_convert_time_series(cls, values):
    rate = values.get('rate')
    if isinstance(rate, dict):
        values['rate'] = rate['values']
    return values


@target("libecalc.presentation.simple_result.simple.SimpleEmissionResult.__sub__", props=["C12"])
def SimpleEmissionResult_sub(self, reference_emission):
    if not isinstance(reference_emission, SimpleEmissionResult):
        raise TypeError()
    if self.name != reference_emission.name:
        raise ValueError()
    return SimpleEmissionResult(name=self.name, rate=_subtract_list(self.rate, reference_emission.rate))


@target("libecalc.presentation.simple_result.simple._subtract_list", props=["C12"])
def f_subtract_list(first, second):
    subtracted = []
    for f, s in zip(first, second):
        if f is None:
            f = 0
        if s is None:
            s = 0
        subtracted.append(f - s)
    return subtracted


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult", props=["C12"])
class SimpleComponentResultValues:
    parent = None
    power = None


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult.from_dto", props=["C12"])
def SimpleComponentResult_from_dto(cls, component_result):
    return SimpleComponentResult(**component_result.model_dump())


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult.convert_time_series", props=["C12"])
def SimpleComponentResult_convert_time_series(cls, values):
    energy_usage = values.get('energy_usage')
    is_valid = values.get('is_valid')
    power = values.get('power')
    if isinstance(energy_usage, dict):
        values['energy_usage'] = energy_usage['values']
        values['energy_usage_unit'] = energy_usage['unit']
    if isinstance(is_valid, dict):
        values['is_valid'] = is_valid['values']
    if power is not None:
        if isinstance(power, dict):
            values['power'] = power['values']
    else:
        values['power'] = None
    return values


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult.id", props=["C12"])
def SimpleComponentResult_id(self):
    return ComponentID(componentType=self.componentType, name=self.name)


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult.fit_to_periods", props=["C12"])
def SimpleComponentResult_fit_to_periods(cls, component, periods):
    power = []
    energy_usage = []
    is_valid = []
    emissions = {emission.name: SimpleEmissionResult(name=emission.name, rate=[]) for emission in component.emissions.values()}
    for period_index, _period in enumerate(component.periods):
        period = Period.intersection(_period, periods.period)
        if period:
            start = periods.start_dates.index(period.start)
            end = periods.end_dates.index(period.end)
            for _ in range(start, end + 1):
                if component.power is not None:
                    power.append(component.power[period_index])
                energy_usage.append(component.energy_usage[period_index])
                is_valid.append(component.is_valid[period_index])
                for emission in emissions.values():
                    emission.rate.append(component.emissions[emission.name].rate[period_index])
    return cls(componentType=component.componentType, component_level=component.component_level, parent=component.parent, name=component.name, power=power, energy_usage=energy_usage, energy_usage_unit=component.energy_usage_unit, emissions=emissions, is_valid=is_valid, periods=periods)


@target("libecalc.presentation.simple_result.simple.SimpleComponentResult.__sub__", props=["C12"])
def SimpleComponentResult_sub(self, reference_component):
    if not isinstance(reference_component, SimpleComponentResult):
        raise TypeError()
    if self.id != reference_component.id:
        raise ValueError()
    if self.periods != reference_component.periods:
        raise ValueError()
    if self.energy_usage_unit != reference_component.energy_usage_unit:
        raise ValueError()
    return SimpleComponentResult(name=self.name, parent=self.parent if self.parent == reference_component.parent else None, componentType=self.componentType, component_level=self.component_level, periods=self.periods, is_valid=[changed and reference for changed, reference in zip(self.is_valid, reference_component.is_valid)], energy_usage=_subtract_list(self.energy_usage, reference_component.energy_usage), energy_usage_unit=self.energy_usage_unit, power=_subtract_list(self.power, reference_component.power), emissions={self_e.name: self_e - reference_e for self_e, reference_e in zip(sorted(self.emissions.values(), key=lambda emission: emission.name), sorted(reference_component.emissions.values(), key=lambda emission: emission.name))})


@target("libecalc.presentation.simple_result.simple._create_empty_component", props=["C12"])
def f_create_empty_component(component):
    return SimpleComponentResult(componentType=component.componentType, component_level=component.component_level, name=component.name, parent=component.parent, periods=component.periods, energy_usage=[0] * len(component.periods), energy_usage_unit=component.energy_usage_unit, power=[0] * len(component.periods), emissions={emission.name: SimpleEmissionResult(name=emission.name, rate=[0] * len(component.periods)) for emission in component.emissions.values()}, is_valid=[True] * len(component.periods))


@target("libecalc.presentation.simple_result.simple.SimpleResultData.from_dto", props=["C12"])
def SimpleResultData_from_dto(cls, result):
    return SimpleResultData(periods=result.periods, components=[SimpleComponentResult.from_dto(component) for component in result.components])


@target("libecalc.presentation.simple_result.simple.SimpleResultData.fit_to_periods", props=["C12"])
def SimpleResultData_fit_to_periods(cls, model, periods):
    return cls(periods=periods, components=[SimpleComponentResult.fit_to_periods(component=component, periods=periods) for component in model.components])


@target("libecalc.presentation.simple_result.simple.SimpleResultData.subtract", props=["C12"])
def SimpleResultData_subtract(cls, changed_model, reference_model):
    if changed_model.periods != reference_model.periods:
        raise ValueError()
    periods = reference_model.periods
    errors = []
    components = []
    for changed_component, reference_component in zip(changed_model.components, reference_model.components):
        try:
            components.append(changed_component - reference_component)
        except ValueError as e:
            errors.append(e)
    return (SimpleResultData(periods=periods, components=components), errors)


@target("libecalc.presentation.simple_result.simple.SimpleResultData._normalize_emissions", props=["C12"])
def SimpleResultData_normalize_emissions(cls, changed_component, reference_component):
    emission_names = set(changed_component.emissions.keys()).union((x for x in reference_component.emissions))
    for emission_name in emission_names:
        for component in [changed_component, reference_component]:
            if emission_name not in list(component.emissions):
                vector_length = len(component.periods)
                component.emissions[emission_name] = SimpleEmissionResult(name=emission_name, rate=[0] * vector_length)
    return (changed_component, reference_component)


@target("libecalc.presentation.simple_result.simple.SimpleResultData.normalize_components", props=["C12"])
def SimpleResultData_normalize_components(cls, reference_model, changed_model, exclude=None):
    if exclude is None:
        exclude = []
    changed_components = {component.id: component for component in changed_model.components}
    reference_components = {component.id: component for component in reference_model.components}
    component_ids = sorted(set(changed_components.keys()).union(set(reference_components.keys())))
    filtered_component_ids = [component_id for component_id in component_ids if component_id.componentType not in exclude]
    normalized_reference_components = []
    normalized_changed_components = []
    for component_id in filtered_component_ids:
        changed_component = changed_components.get(component_id)
        reference_component = reference_components.get(component_id)
        if changed_component is None and reference_component is not None:
            changed_component = _create_empty_component(reference_component)
        elif reference_component is None and changed_component is not None:
            reference_component = _create_empty_component(changed_component)
        changed_component, reference_component = cls._normalize_emissions(reference_component=reference_component, changed_component=changed_component)
        normalized_reference_components.append(reference_component)
        normalized_changed_components.append(changed_component)
    return (cls(periods=changed_model.periods, components=normalized_changed_components), cls(periods=reference_model.periods, components=normalized_reference_components))


@target("libecalc.presentation.simple_result.simple.SimpleResultData.delta_profile", props=["C12"])
def SimpleResultData_delta_profile(cls, reference_model, changed_model):
    first_date = max(changed_model.periods.first_date, reference_model.periods.first_date)
    last_date = min(changed_model.periods.last_date, reference_model.periods.last_date)
    if first_date >= last_date:
        raise EcalcError(title='Compare error', message="The models' periods do not overlap.")
    all_dates_in_models = sorted({date for date in reference_model.periods.all_dates if first_date <= date <= last_date}.union({date for date in changed_model.periods.all_dates if first_date <= date <= last_date}))
    periods = Periods.create_periods(times=all_dates_in_models, include_after=False, include_before=False)
    changed_model, reference_model = cls.normalize_components(reference_model=reference_model, changed_model=changed_model)
    changed_model = cls.fit_to_periods(changed_model, periods)
    reference_model = cls.fit_to_periods(reference_model, periods)
    delta_profile, errors = cls.subtract(changed_model=changed_model, reference_model=reference_model)
    return (changed_model, reference_model, delta_profile, [str(error) for error in errors])


@target("libecalc.common.math.numbers.Numbers.format_to_precision", props=["C12", "C15"])
def Numbers_format_to_precision(number, precision):
    if precision < -1:
        raise ValueError()
    if abs(number) <= pow(10, -precision - 1):
        return '0'
    my_decimal = Decimal(number)
    significant_digits = my_decimal.adjusted()
    if significant_digits < 0:
        new_precision = precision
    elif significant_digits < precision:
        new_precision = precision - significant_digits
    else:
        new_precision = 0
    return str(np.format_float_positional(number, new_precision, unique=True, fractional=True, trim='-'))


@target("libecalc.common.math.numbers.Numbers.format_results_to_precision", props=["C12", "C15"])
def Numbers_format_results_to_precision(result, precision):

    def recursive_rounding(value):
        if isinstance(value, BaseModel):
            for k, v in value.__dict__.items():
                value.__setattr__(k, recursive_rounding(v))
            return value
        elif isinstance(value, dict):
            return {k: recursive_rounding(v) for k, v in value.items()}
        elif isinstance(value, list):
            return [recursive_rounding(val) for val in value]
        elif isinstance(value, float):
            return float(Numbers.format_to_precision(value, precision=precision))
        else:
            return value
    return recursive_rounding(deepcopy(result))


@target("libecalc.common.math.math_utils.MathUtil.elementwise_subtraction_by_key", props=["C12"])
def MathUtil_elementwise_subtraction_by_key(this, that):
    if this is None or that is None:
        raise IncompatibleDataError(f'A or B is None.dict A has value {this}, and B has {that}')
    if len(this.items()) != len(that.items()):
        raise DifferentLengthsError(f'Subtracting values A-B failed due to different vector lengths.dict A has value {len(this.items())}, but B has {len(that.items())}')
    delta_dict = {}
    for item_key, this_value in this.items():
        that_value = that.get(item_key)
        if that_value is None:
            raise MissingKeyError(f'Subtracting values A-B failed due to missing time step in B. Key {item_key} had value {this_value} in A but is missing in B')
        if that_value is not None:
            delta_dict[item_key] = this_value - that_value
    return delta_dict


@target("libecalc.common.graph.NodeWithID.id", props=["C12"])
def NodeWithID_id(self):
    ...


@target("libecalc.common.graph.Graph.__init__", props=["C12"])
def Graph_init(self):
    self.graph = nx.DiGraph()
    self.nodes = {}


@target("libecalc.common.graph.Graph._get_node_id", props=["C12"])
def Graph_get_node_id(self, node):
    if isinstance(node, UUID):
        return node
    return node.id


@target("libecalc.common.graph.Graph.add_node", props=["C12"])
def Graph_add_node(self, node):
    self.graph.add_node(self._get_node_id(node))
    self.nodes[self._get_node_id(node)] = node
    return self


@target("libecalc.common.graph.Graph.add_edge", props=["C12"])
def Graph_add_edge(self, from_id, to_id):
    if from_id not in self.nodes or to_id not in self.nodes:
        raise ValueError()
    self.graph.add_edge(from_id, to_id)
    return self


@target("libecalc.common.graph.Graph.add_subgraph", props=["C12"])
def Graph_add_subgraph(self, subgraph):
    self.nodes.update(subgraph.nodes)
    self.graph = nx.compose(self.graph, subgraph.graph)
    return self


@target("libecalc.common.graph.Graph.get_successors", props=["C12"])
def Graph_get_successors(self, node_id, recursively=False):
    if recursively:
        return [successor_id for successor_id in nx.dfs_tree(self.graph, source=node_id).nodes() if successor_id != node_id]
    else:
        return list(self.graph.successors(node_id))


@target("libecalc.common.graph.Graph.get_predecessor", props=["C12"])
def Graph_get_predecessor(self, node_id):
    predecessors = list(self.graph.predecessors(node_id))
    if len(predecessors) > 1:
        raise ValueError()
    return predecessors[0]


@target("libecalc.common.graph.Graph.root", props=["C12"])
def Graph_root(self):
    return list(nx.topological_sort(self.graph))[0]


@target("libecalc.common.graph.Graph.get_node", props=["C12"])
def Graph_get_node(self, node_id):
    return self.nodes[node_id]


@target("libecalc.common.graph.Graph.sorted_node_ids", props=["C12"])
def Graph_sorted_node_ids(self):
    return list(nx.topological_sort(self.graph))


@target("libecalc.common.graph.Graph.breadth_first_search_tree", props=["C12"])
def Graph_breadth_first_search_tree(self, source_id):
    return list(nx.bfs_tree(self.graph, source_id))


@target("libecalc.common.graph.Graph.__iter__", props=["C12"])
def Graph_iter(self):
    return iter(self.graph)


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.__init__", props=["C12"])
def Asset_init(self, id, name, installations):
    self._uuid = id
    self._name = name
    self.installations = installations
    self.component_type = ComponentType.ASSET


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.get_id", props=["C12"])
def Asset_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.name", props=["C12"])
def Asset_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.is_fuel_consumer", props=["C12"])
def Asset_is_fuel_consumer(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.is_electricity_consumer", props=["C12"])
def Asset_is_electricity_consumer(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.is_provider", props=["C12"])
def Asset_is_provider(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.get_component_process_type", props=["C12"])
def Asset_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.energy_components.asset.asset.Asset.get_name", props=["C12"])
def Asset_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.installation.installation.PowerConsumerComponent.__init__", props=["C12", "C10"])
def PowerConsumerComponent_init(self, producer_id, consumer_id, power_consumption):
    self._producer_id = producer_id
    self._consumer_id = consumer_id
    self._power_consumption = power_consumption


@target("libecalc.domain.infrastructure.energy_components.installation.installation.PowerConsumerComponent.get_id", props=["C12", "C10"])
def PowerConsumerComponent_get_id(self):
    return self._consumer_id


@target("libecalc.domain.infrastructure.energy_components.installation.installation.PowerConsumerComponent.get_producer_id", props=["C12", "C10"])
def PowerConsumerComponent_get_producer_id(self):
    return self._producer_id


@target("libecalc.domain.infrastructure.energy_components.installation.installation.PowerConsumerComponent.get_power_consumption", props=["C12", "C10"])
def PowerConsumerComponent_get_power_consumption(self):
    return self._power_consumption


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.__init__", props=["C12", "C10"])
def InstallationComponent_init(self, id, name, regularity, hydrocarbon_export, fuel_consumers, expression_evaluator, venting_emitters=None):
    self._uuid = id
    self._name = name
    self.hydrocarbon_export = hydrocarbon_export
    self.regularity = regularity
    self.fuel_consumers = fuel_consumers
    self.expression_evaluator = expression_evaluator
    self.component_type = ComponentType.INSTALLATION
    if venting_emitters is None:
        venting_emitters = []
    self.venting_emitters = venting_emitters


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_id", props=["C12", "C10"])
def InstallationComponent_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.name", props=["C12", "C10"])
def InstallationComponent_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.is_fuel_consumer", props=["C12", "C10"])
def InstallationComponent_is_fuel_consumer(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.is_electricity_consumer", props=["C12", "C10"])
def InstallationComponent_is_electricity_consumer(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.is_provider", props=["C12", "C10"])
def InstallationComponent_is_provider(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_component_process_type", props=["C12", "C10"])
def InstallationComponent_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_name", props=["C12", "C10"])
def InstallationComponent_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_electricity_producers", props=["C12", "C10"])
def InstallationComponent_get_electricity_producers(self):
    electricity_producers = []
    for fuel_consumer in self.fuel_consumers:
        if isinstance(fuel_consumer, ElectricityProducer):
            electricity_producers.append(fuel_consumer)
    return electricity_producers


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_storage_containers", props=["C12", "C10"])
def InstallationComponent_get_storage_containers(self):
    storage_containers = []
    for venting_emitter in self.venting_emitters:
        if isinstance(venting_emitter, StorageContainer):
            storage_containers.append(venting_emitter)
    return storage_containers


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_fuel_consumers", props=["C12", "C10"])
def InstallationComponent_get_fuel_consumers(self):
    return self.fuel_consumers


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_mechanical_power_consumers", props=["C12", "C10"])
def InstallationComponent_get_mechanical_power_consumers(self):
    power_consumers = []
    for fuel_consumer in self.fuel_consumers:
        if not isinstance(fuel_consumer, FuelConsumerComponent):
            continue
        power_consumption = fuel_consumer.get_power_consumption()
        if power_consumption is None:
            continue
        power_consumers.append(PowerConsumerComponent(producer_id=None, consumer_id=fuel_consumer.get_id(), power_consumption=power_consumption))
    return power_consumers


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_electrical_power_consumers", props=["C12", "C10"])
def InstallationComponent_get_electrical_power_consumers(self):
    power_consumers = []
    for fuel_consumer in self.fuel_consumers:
        if not isinstance(fuel_consumer, GeneratorSetEnergyComponent):
            continue
        for electricity_consumer in fuel_consumer.consumers:
            power_consumption = electricity_consumer.get_power_consumption()
            if power_consumption is None:
                continue
            power_consumers.append(PowerConsumerComponent(producer_id=fuel_consumer.get_id(), consumer_id=electricity_consumer.get_id(), power_consumption=power_consumption))
    return power_consumers


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_power_consumers", props=["C12", "C10"])
def InstallationComponent_get_power_consumers(self):
    return [*self.get_electrical_power_consumers(), *self.get_mechanical_power_consumers()]


@target("libecalc.domain.infrastructure.energy_components.installation.installation.InstallationComponent.get_emitters", props=["C12", "C10"])
def InstallationComponent_get_emitters(self):
    return [*self.fuel_consumers, *self.venting_emitters]
