# Reference equations (parsed by the checker, never executed).
import math
import numpy as np
import pandas as pd
from copy import deepcopy
from functools import partial
from libecalc.common.consumption_type import ConsumptionType
from libecalc.common.energy_usage_type import EnergyUsageType
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException, ProcessChartTypeValidationException, ProcessCompressorEfficiencyValidationException, ProcessDischargePressureValidationException, ProcessEqualLengthValidationException, ProcessMissingVariableValidationException, ProcessNegativeValuesValidationException
from libecalc.common.errors.exceptions import EcalcError, IllegalStateException, InvalidColumnException
from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl
from libecalc.common.list.list_utils import array_to_list, elementwise_sum
from libecalc.common.numeric_methods import DampState, adaptive_pressure_update, find_root, maximize_x_given_boolean_condition_function
from libecalc.common.units import Unit, UnitConstants
from libecalc.domain.process.compressor.core.exceptions import CompressorOutletCalculationError, CompressorThermodynamicCalculationError
from libecalc.domain.process.compressor.core.results import CompressorTrainResultSingleTimeStep, CompressorTrainStageResultSingleTimeStep
from libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d import CompressorModelSampled1D, _get_extrapolation_values, _get_variable_column_name
from libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d import CompressorModelSampled2DPsPd, CompressorModelSampled2DRatePd, CompressorModelSampled2DRatePs
from libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d import CompressorModelSampled3D, _convert_variables_for_interpolator, _get_maximum_ps, _get_maximum_rates, _get_minimum_pd, _get_minimum_rates, _project_on_pd, _project_on_ps, _project_on_rate, _setup_maximum_ps_projection_functions, _setup_maximum_rate_projection_functions, _setup_minimum_pd_projection_functions, _setup_minimum_rate_projection_functions
from libecalc.domain.process.compressor.core.sampled.convex_hull_common import HalfConvexHull, LinearInterpolatorSimplicesDefined, Node, Simplex, _compute_simplices_in_new_pointset, get_lower_upper_qhull, sort_ndarray_by_column
from libecalc.domain.process.compressor.core.train.base import calculate_pressure_ratio_per_stage
from libecalc.domain.process.compressor.core.train.compressor_train_common_shaft import CompressorTrainCommonShaft
from libecalc.domain.process.compressor.core.train.train_evaluation_input import CompressorTrainEvaluationInput
from libecalc.domain.process.compressor.core.train.types import StreamPort
from libecalc.domain.process.compressor.core.train.utils.common import _flash_ph_for_compressor_outlet, calculate_outlet_pressure_and_stream, calculate_power_in_megawatt, flash_ph_for_compressor_calculation
from libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations import _calculate_head, _calculate_polytropic_exponent_expression_n_minus_1_over_n, calculate_enthalpy_change_head_iteration, calculate_outlet_pressure_campbell, calculate_polytropic_head_campbell
from libecalc.domain.process.core.results import CompressorTrainResult
from libecalc.domain.process.core.results.base import EnergyResult, Quantity
from libecalc.domain.process.core.results.compressor import CompressorTrainCommonShaftFailureStatus, TargetPressureStatus
from libecalc.domain.process.core.results.pump import PumpFailureStatus
from libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor import OperationalPoint
from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
from libecalc.process.fluid_stream.exceptions import FluidFlashCalculationError
from libecalc.process.fluid_stream.fluid import Fluid
from libecalc.process.fluid_stream.fluid_model import FluidComposition, FluidModel
from libecalc.process.fluid_stream.fluid_property_validation import require_positive_finite, validate_ph_flash_result
from libecalc.process.fluid_stream.fluid_stream import FluidStream
from libecalc.process.fluid_stream.stream_mixer import StreamMixer
from libecalc.process.shaft import Shaft, SingleSpeedShaft, VariableSpeedShaft
from math import isnan, nan
from scipy.interpolate import LinearNDInterpolator, interp1d
from scipy.spatial import ConvexHull, Delaunay
from typing import cast
POWER_CALCULATION_TOLERANCE = 0.001
FUNCTION_VALUE_HEADER = 'ENERGY_USAGE'
PD_NAME = 'DISCHARGE_PRESSURE'
PS_NAME = 'SUCTION_PRESSURE'
RATE_NAME = 'RATE'
EPSILON = 1e-15
EPSILON_MAX_RATE = 0.0001
PRESSURE_CALCULATION_TOLERANCE = 0.001
RATE_CALCULATION_TOLERANCE = 0.001
MAX_FIRST_GUESS_BAR = 2000.0


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.__init__", props=["C24"])
def CompressorWithTurbineModel_init(self, compressor_energy_function, energy_usage_adjustment_constant, energy_usage_adjustment_factor, turbine_model):
    self._energy_usage_adjustment_constant = energy_usage_adjustment_constant
    self._energy_usage_adjustment_factor = energy_usage_adjustment_factor
    self.compressor_model = compressor_energy_function
    self.turbine_model = turbine_model


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.set_evaluation_input", props=["C24"])
def CompressorWithTurbineModel_set_evaluation_input(self, *args, **kwargs):
    self.compressor_model.set_evaluation_input(*args, **kwargs)


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.get_consumption_type", props=["C24"])
def CompressorWithTurbineModel_get_consumption_type(self):
    return ConsumptionType.FUEL


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.evaluate", props=["C24"])
def CompressorWithTurbineModel_evaluate(self):
    compressor_model_result = self.compressor_model.evaluate()
    turbine_result = self.evaluate_turbine_based_on_compressor_model_result(compressor_model_result)
    return turbine_result


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.evaluate_turbine_based_on_compressor_model_result", props=["C24"])
def CompressorWithTurbineModel_evaluate_turbine_based_on_compressor_model_result(self, compressor_energy_function_result):
    energy_result = compressor_energy_function_result.get_energy_result()
    if energy_result.power is not None:
        load_adjusted = np.where(np.asarray(energy_result.power.values) > 0, np.asarray(energy_result.power.values) * self._energy_usage_adjustment_factor + self._energy_usage_adjustment_constant, np.asarray(energy_result.power.values))
        turbine_result = self.turbine_model.evaluate(load=load_adjusted)
        compressor_energy_function_result.turbine_result = turbine_result
    return compressor_energy_function_result


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel._calculate_remaining_capacity_in_train_given_standard_rate", props=["C24"])
def CompressorWithTurbineModel_calculate_remaining_capacity_in_train_given_standard_rate(self, standard_rate, suction_pressure, discharge_pressure, max_power):
    self.compressor_model.set_evaluation_input(fluid_model=self.compressor_model._fluid_model, rate=np.asarray([standard_rate]), suction_pressure=np.asarray([suction_pressure]), discharge_pressure=np.asarray([discharge_pressure]))
    result = self.compressor_model.evaluate()
    energy_result = result.get_energy_result()
    if energy_result.power is None or len(energy_result.power.values) == 0:
        return 0.0
    return float(energy_result.power.values[0]) - (max_power - POWER_CALCULATION_TOLERANCE)


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.get_max_standard_rate", props=["C24"])
def CompressorWithTurbineModel_get_max_standard_rate(self, suction_pressures, discharge_pressures, fluid_model=None):
    if fluid_model is not None:
        self.compressor_model._fluid_model = [fluid_model]
    max_standard_rate = self.compressor_model.get_max_standard_rate(suction_pressures=suction_pressures, discharge_pressures=discharge_pressures)
    self.compressor_model.set_evaluation_input(fluid_model=self.compressor_model._fluid_model, rate=max_standard_rate, suction_pressure=suction_pressures, discharge_pressure=discharge_pressures)
    results_max_standard_rate = self.compressor_model.evaluate()
    energy_result = results_max_standard_rate.get_energy_result()
    max_power = self.turbine_model.max_power
    if energy_result.power is not None:
        powers = np.asarray(energy_result.power.values)
        for i, (power, suction_pressure, discharge_pressure) in enumerate(zip(powers, suction_pressures, discharge_pressures)):
            if not np.isnan(power) and power > max_power:
                max_standard_rate[i] = find_root(lower_bound=0, upper_bound=max_standard_rate[i], func=partial(self._calculate_remaining_capacity_in_train_given_standard_rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, max_power=max_power))
    return max_standard_rate


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.get_requested_inlet_pressure", props=["C24"])
def CompressorWithTurbineModel_get_requested_inlet_pressure(self):
    return self.compressor_model._suction_pressure


@target("libecalc.domain.process.compressor.core.base.CompressorWithTurbineModel.get_requested_outlet_pressure", props=["C24"])
def CompressorWithTurbineModel_get_requested_outlet_pressure(self):
    return self.compressor_model._discharge_pressure


@target("libecalc.domain.process.compressor.core.exceptions.CompressorThermodynamicCalculationError.__init__", props=["C24"])
def CompressorThermodynamicCalculationError_init(self, operation, reason, details=None):
    self.operation = operation
    self.reason = reason
    self.details = {name: value for name, value in (details or {}).items() if value is not None}
    super().__init__(self._format_message())


@target("libecalc.domain.process.compressor.core.exceptions.CompressorThermodynamicCalculationError._format_message", props=["C24"])
def CompressorThermodynamicCalculationError_format_message(self):
    message = f'Compressor thermodynamic calculation failed during {self.operation}: {self.reason}'
    if not self.details:
        return message
    formatted_details = ', '.join((f'{name}={value}' for name, value in self.details.items()))
    return f'{message} Context: {formatted_details}.'


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.__init__", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_init(self, inlet_stream, outlet_stream, inlet_stream_including_asv, outlet_stream_including_asv, polytropic_head_kJ_per_kg, polytropic_efficiency, polytropic_enthalpy_change_kJ_per_kg, polytropic_enthalpy_change_before_choke_kJ_per_kg, power_megawatt, chart_area_flag, point_is_valid, rate_has_recirculation=None, rate_exceeds_maximum=None, pressure_is_choked=None, head_exceeds_maximum=None):
    self.inlet_stream = inlet_stream
    self.outlet_stream = outlet_stream
    self.inlet_stream_including_asv = inlet_stream_including_asv
    self.outlet_stream_including_asv = outlet_stream_including_asv
    self.polytropic_head_kJ_per_kg = polytropic_head_kJ_per_kg
    self.polytropic_efficiency = polytropic_efficiency
    self.polytropic_enthalpy_change_kJ_per_kg = polytropic_enthalpy_change_kJ_per_kg
    self.polytropic_enthalpy_change_before_choke_kJ_per_kg = polytropic_enthalpy_change_before_choke_kJ_per_kg
    self.power_megawatt = power_megawatt
    self.chart_area_flag = chart_area_flag
    self.rate_has_recirculation = rate_has_recirculation
    self.rate_exceeds_maximum = rate_exceeds_maximum
    self.pressure_is_choked = pressure_is_choked
    self.head_exceeds_maximum = head_exceeds_maximum
    self.point_is_valid = bool(point_is_valid)


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.create_empty", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_create_empty(cls):
    return cls(inlet_stream=None, outlet_stream=None, inlet_stream_including_asv=None, outlet_stream_including_asv=None, polytropic_head_kJ_per_kg=0.0, polytropic_efficiency=1.0, polytropic_enthalpy_change_kJ_per_kg=0.0, polytropic_enthalpy_change_before_choke_kJ_per_kg=0.0, power_megawatt=0.0, chart_area_flag=ChartAreaFlag.NOT_CALCULATED, rate_has_recirculation=False, rate_exceeds_maximum=False, pressure_is_choked=False, head_exceeds_maximum=False, point_is_valid=True)


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.inlet_actual_rate_m3_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_inlet_actual_rate_m3_per_hour(self):
    if self.inlet_stream is None:
        return 0.0
    return self.inlet_stream.volumetric_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.inlet_actual_rate_asv_corrected_m3_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_inlet_actual_rate_asv_corrected_m3_per_hour(self):
    if self.inlet_stream_including_asv is None:
        return 0.0
    return self.inlet_stream_including_asv.volumetric_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.standard_rate_sm3_per_day", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_standard_rate_sm3_per_day(self):
    if self.inlet_stream is None:
        return 0.0
    return self.inlet_stream.standard_rate_sm3_per_day


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.standard_rate_asv_corrected_sm3_per_day", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_standard_rate_asv_corrected_sm3_per_day(self):
    if self.inlet_stream_including_asv is None:
        return 0.0
    return self.inlet_stream_including_asv.standard_rate_sm3_per_day


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.outlet_actual_rate_m3_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_outlet_actual_rate_m3_per_hour(self):
    if self.outlet_stream is None:
        return 0.0
    return self.outlet_stream.volumetric_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.outlet_actual_rate_asv_corrected_m3_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_outlet_actual_rate_asv_corrected_m3_per_hour(self):
    if self.outlet_stream_including_asv is None:
        return 0.0
    return self.outlet_stream_including_asv.volumetric_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.mass_rate_kg_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_mass_rate_kg_per_hour(self):
    if self.inlet_stream is None:
        return 0.0
    return self.inlet_stream.mass_rate_kg_per_h


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.mass_rate_asv_corrected_kg_per_hour", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_mass_rate_asv_corrected_kg_per_hour(self):
    if self.inlet_stream_including_asv is None:
        return 0.0
    return self.inlet_stream_including_asv.mass_rate_kg_per_h


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.is_valid", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_is_valid(self):
    return self.within_capacity


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.within_capacity", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_within_capacity(self):
    return self.chart_area_flag == ChartAreaFlag.INTERNAL_POINT or self.point_is_valid is True


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.discharge_pressure", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_discharge_pressure(self):
    return self.outlet_stream.pressure_bara


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.inlet_pressure", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_inlet_pressure(self):
    return self.inlet_stream.pressure_bara


@target("libecalc.domain.process.compressor.core.results.CompressorTrainStageResultSingleTimeStep.asv_recirculation_loss_mw", props=["C24"])
def CompressorTrainStageResultSingleTimeStep_asv_recirculation_loss_mw(self):
    asv_loss_kilo_joule_per_hour = (self.mass_rate_asv_corrected_kg_per_hour - self.mass_rate_kg_per_hour) * self.polytropic_enthalpy_change_kJ_per_kg
    kilo_joule_per_hour_to_mw_factor = 1 / (60 * 60 * 1000)
    return asv_loss_kilo_joule_per_hour * kilo_joule_per_hour_to_mw_factor


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.__init__", props=["C24"])
def CompressorTrainResultSingleTimeStep_init(self, inlet_stream, outlet_stream, speed, stage_results, target_pressure_status, above_maximum_power=False):
    self.inlet_stream = inlet_stream
    self.outlet_stream = outlet_stream
    self.speed = speed
    self.stage_results = stage_results
    self.above_maximum_power = above_maximum_power
    self.target_pressure_status = target_pressure_status


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.from_result_list_to_dto", props=["C24"])
def CompressorTrainResultSingleTimeStep_from_result_list_to_dto(result_list, compressor_charts):
    number_of_stages = max([len(t.stage_results) for t in result_list])

    def get_or_fill(property_name, obj, fill=np.nan):
        if obj is None:
            return fill
        else:
            return getattr(obj, property_name)
    compressor_stage_results = []
    for i in range(number_of_stages):
        list_stage_result = CompressorStageResult.create_empty(len(result_list))
        list_stage_result.energy_usage_unit = Unit.MEGA_WATT
        list_inlet_stream = CompressorStreamCondition.create_empty(len(result_list))
        list_outlet_stream = CompressorStreamCondition.create_empty(len(result_list))
        for t in range(len(result_list)):
            single_train_result = result_list[t]
            single_stage_result = single_train_result.stage_results[i]
            list_stage_result.energy_usage[t] = single_stage_result.power_megawatt
            list_stage_result.power[t] = single_stage_result.power_megawatt
            list_stage_result.mass_rate_kg_per_hr[t] = single_stage_result.mass_rate_asv_corrected_kg_per_hour
            list_stage_result.mass_rate_before_asv_kg_per_hr[t] = single_stage_result.mass_rate_kg_per_hour
            list_inlet_stream.pressure[t] = get_or_fill('pressure_bara', single_stage_result.inlet_stream)
            list_inlet_stream.actual_rate_m3_per_hr[t] = single_stage_result.inlet_actual_rate_asv_corrected_m3_per_hour
            list_inlet_stream.actual_rate_before_asv_m3_per_hr[t] = single_stage_result.inlet_actual_rate_m3_per_hour
            list_inlet_stream.standard_rate_sm3_per_day[t] = single_stage_result.standard_rate_asv_corrected_sm3_per_day
            list_inlet_stream.standard_rate_before_asv_sm3_per_day[t] = single_stage_result.standard_rate_sm3_per_day
            list_inlet_stream.density_kg_per_m3[t] = get_or_fill('density', single_stage_result.inlet_stream)
            list_inlet_stream.kappa[t] = get_or_fill('kappa', single_stage_result.inlet_stream)
            list_inlet_stream.z[t] = get_or_fill('z', single_stage_result.inlet_stream)
            list_inlet_stream.temperature_kelvin[t] = get_or_fill('temperature_kelvin', single_stage_result.inlet_stream)
            list_outlet_stream.pressure[t] = get_or_fill('pressure_bara', single_stage_result.outlet_stream)
            list_outlet_stream.actual_rate_m3_per_hr[t] = single_stage_result.outlet_actual_rate_asv_corrected_m3_per_hour
            list_outlet_stream.actual_rate_before_asv_m3_per_hr[t] = single_stage_result.outlet_actual_rate_m3_per_hour
            list_outlet_stream.standard_rate_sm3_per_day[t] = single_stage_result.standard_rate_asv_corrected_sm3_per_day
            list_outlet_stream.standard_rate_before_asv_sm3_per_day[t] = single_stage_result.standard_rate_sm3_per_day
            list_outlet_stream.density_kg_per_m3[t] = get_or_fill('density', single_stage_result.outlet_stream)
            list_outlet_stream.kappa[t] = get_or_fill('kappa', single_stage_result.outlet_stream)
            list_outlet_stream.z[t] = get_or_fill('z', single_stage_result.outlet_stream)
            list_outlet_stream.temperature_kelvin[t] = get_or_fill('temperature_kelvin', single_stage_result.outlet_stream)
            list_stage_result.polytropic_enthalpy_change_kJ_per_kg[t] = single_stage_result.polytropic_enthalpy_change_kJ_per_kg
            list_stage_result.polytropic_head_kJ_per_kg[t] = single_stage_result.polytropic_head_kJ_per_kg
            list_stage_result.polytropic_efficiency[t] = single_stage_result.polytropic_efficiency
            list_stage_result.polytropic_enthalpy_change_before_choke_kJ_per_kg[t] = single_stage_result.polytropic_enthalpy_change_before_choke_kJ_per_kg
            list_stage_result.speed[t] = single_train_result.speed
            list_stage_result.asv_recirculation_loss_mw[t] = single_stage_result.asv_recirculation_loss_mw
            list_stage_result.is_valid[t] = single_stage_result.is_valid
            list_stage_result.chart_area_flags[t] = single_stage_result.chart_area_flag
            list_stage_result.rate_has_recirculation[t] = bool(single_stage_result.rate_has_recirculation)
            list_stage_result.rate_exceeds_maximum[t] = bool(single_stage_result.rate_exceeds_maximum)
            list_stage_result.pressure_is_choked[t] = bool(single_stage_result.pressure_is_choked)
            list_stage_result.head_exceeds_maximum[t] = bool(single_stage_result.head_exceeds_maximum)
        list_stage_result.inlet_stream_condition = list_inlet_stream
        list_stage_result.outlet_stream_condition = list_outlet_stream
        list_stage_result.fluid_composition = {}
        list_stage_result.chart = compressor_charts[i].chart_data if compressor_charts is not None else None
        compressor_stage_results.append(list_stage_result)
    inlet_stream_condition_for_train = CompressorStreamCondition.create_empty(len(result_list))
    outlet_stream_condition_for_train = CompressorStreamCondition.create_empty(len(result_list))
    for t in range(len(result_list)):
        single_train_result = result_list[t]
        single_inlet_stream = single_train_result.inlet_stream
        single_outlet_stream = single_train_result.outlet_stream
        inlet_stream_condition_for_train.pressure[t] = get_or_fill('pressure_bara', single_inlet_stream)
        inlet_stream_condition_for_train.actual_rate_m3_per_hr[t] = single_train_result.inlet_actual_rate
        inlet_stream_condition_for_train.density_kg_per_m3[t] = get_or_fill('density', single_inlet_stream)
        inlet_stream_condition_for_train.kappa[t] = get_or_fill('kappa', single_inlet_stream)
        inlet_stream_condition_for_train.z[t] = get_or_fill('z', single_inlet_stream)
        inlet_stream_condition_for_train.temperature_kelvin[t] = get_or_fill('temperature_kelvin', single_inlet_stream)
        inlet_stream_condition_for_train.actual_rate_before_asv_m3_per_hr[t] = np.nan
        inlet_stream_condition_for_train.standard_rate_before_asv_sm3_per_day[t] = np.nan
        outlet_stream_condition_for_train.pressure[t] = get_or_fill('pressure_bara', single_outlet_stream)
        outlet_stream_condition_for_train.actual_rate_m3_per_hr[t] = single_train_result.outlet_actual_rate
        outlet_stream_condition_for_train.density_kg_per_m3[t] = get_or_fill('density', single_outlet_stream)
        outlet_stream_condition_for_train.kappa[t] = get_or_fill('kappa', single_outlet_stream)
        outlet_stream_condition_for_train.z[t] = get_or_fill('z', single_outlet_stream)
        outlet_stream_condition_for_train.temperature_kelvin[t] = get_or_fill('temperature_kelvin', single_outlet_stream)
        outlet_stream_condition_for_train.actual_rate_before_asv_m3_per_hr[t] = np.nan
        outlet_stream_condition_for_train.standard_rate_before_asv_sm3_per_day[t] = np.nan
        inlet_rates = compressor_stage_results[0].inlet_stream_condition.standard_rate_before_asv_sm3_per_day
        inlet_stream_condition_for_train.standard_rate_sm3_per_day[t] = inlet_rates[t]
        outlet_rates = compressor_stage_results[-1].outlet_stream_condition.standard_rate_before_asv_sm3_per_day
        outlet_stream_condition_for_train.standard_rate_sm3_per_day[t] = outlet_rates[t]
    return (inlet_stream_condition_for_train, outlet_stream_condition_for_train, compressor_stage_results)


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.failure_status", props=["C24"])
def CompressorTrainResultSingleTimeStep_failure_status(self):
    if not all((r.is_valid for r in self.stage_results)):
        for stage in self.stage_results:
            if not stage.within_capacity:
                if stage.chart_area_flag in (ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE, ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE):
                    return CompressorTrainCommonShaftFailureStatus.ABOVE_MAXIMUM_FLOW_RATE
                elif stage.chart_area_flag in (ChartAreaFlag.BELOW_MINIMUM_FLOW_RATE, ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE):
                    return CompressorTrainCommonShaftFailureStatus.BELOW_MINIMUM_FLOW_RATE
    if self.target_pressure_status == TargetPressureStatus.ABOVE_TARGET_SUCTION_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_DISCHARGE_PRESSURE_TOO_HIGH
    elif self.target_pressure_status == TargetPressureStatus.BELOW_TARGET_SUCTION_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_SUCTION_PRESSURE_TOO_HIGH
    elif self.target_pressure_status == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_DISCHARGE_PRESSURE_TOO_LOW
    elif self.target_pressure_status == TargetPressureStatus.BELOW_TARGET_DISCHARGE_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_DISCHARGE_PRESSURE_TOO_HIGH
    elif self.target_pressure_status == TargetPressureStatus.ABOVE_TARGET_INTERMEDIATE_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_INTERMEDIATE_PRESSURE_TOO_LOW
    elif self.target_pressure_status == TargetPressureStatus.BELOW_TARGET_INTERMEDIATE_PRESSURE:
        return CompressorTrainCommonShaftFailureStatus.TARGET_INTERMEDIATE_PRESSURE_TOO_HIGH
    elif self.above_maximum_power:
        return CompressorTrainCommonShaftFailureStatus.ABOVE_MAXIMUM_POWER
    return CompressorTrainCommonShaftFailureStatus.NO_FAILURE


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.chart_area_status", props=["C24"])
def CompressorTrainResultSingleTimeStep_chart_area_status(self):
    chart_area_failure = [stage.chart_area_flag for stage in self.stage_results if not stage.point_is_valid]
    if len(chart_area_failure) > 0:
        return chart_area_failure[0]
    else:
        chart_area_flag = [stage.chart_area_flag for stage in self.stage_results if stage.point_is_valid]
        if ChartAreaFlag.NO_FLOW_RATE in chart_area_flag:
            return ChartAreaFlag.NO_FLOW_RATE
        else:
            return chart_area_flag[0]


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.is_valid", props=["C24"])
def CompressorTrainResultSingleTimeStep_is_valid(self):
    if not self.failure_status == CompressorTrainCommonShaftFailureStatus.NO_FAILURE:
        return False
    elif len(self.stage_results) > 0:
        return bool(np.all([r.is_valid for r in self.stage_results]))
    else:
        return True


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.within_capacity", props=["C24"])
def CompressorTrainResultSingleTimeStep_within_capacity(self):
    return bool(np.all([r.within_capacity for r in self.stage_results]))


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.power_megawatt", props=["C24"])
def CompressorTrainResultSingleTimeStep_power_megawatt(self):
    return sum([stage_result.power_megawatt for stage_result in self.stage_results])


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.discharge_pressure", props=["C24"])
def CompressorTrainResultSingleTimeStep_discharge_pressure(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.pressure_bara
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.suction_pressure", props=["C24"])
def CompressorTrainResultSingleTimeStep_suction_pressure(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.pressure_bara
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.mass_rate_kg_per_hour", props=["C24"])
def CompressorTrainResultSingleTimeStep_mass_rate_kg_per_hour(self):
    return self.stage_results[0].mass_rate_kg_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_actual_rate", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_actual_rate(self):
    return self.stage_results[0].inlet_actual_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_density", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_density(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.density
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_z", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_z(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.z
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_kappa", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_kappa(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.kappa
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_temperature_kelvin", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_temperature_kelvin(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.temperature_kelvin
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.inlet_fluid_composition", props=["C24"])
def CompressorTrainResultSingleTimeStep_inlet_fluid_composition(self):
    if self.inlet_stream is not None:
        return self.inlet_stream.composition
    else:
        return FluidComposition()


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_actual_rate", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_actual_rate(self):
    return self.stage_results[-1].outlet_actual_rate_m3_per_hour


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_density", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_density(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.density
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_kappa", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_kappa(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.kappa
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_z", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_z(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.z
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_temperature_kelvin", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_temperature_kelvin(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.temperature_kelvin
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.outlet_fluid_composition", props=["C24"])
def CompressorTrainResultSingleTimeStep_outlet_fluid_composition(self):
    if self.outlet_stream is not None:
        return self.outlet_stream.composition
    else:
        return FluidComposition()


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.polytropic_head_kilo_joule_per_kg", props=["C24"])
def CompressorTrainResultSingleTimeStep_polytropic_head_kilo_joule_per_kg(self):
    return [stage.polytropic_head_kJ_per_kg for stage in self.stage_results]


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.polytropic_enthalpy_change_kilo_joule_per_kg", props=["C24"])
def CompressorTrainResultSingleTimeStep_polytropic_enthalpy_change_kilo_joule_per_kg(self):
    return sum([stage.polytropic_enthalpy_change_kJ_per_kg for stage in self.stage_results])


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.polytropic_enthalpy_change_before_choke_kilo_joule_per_kg", props=["C24"])
def CompressorTrainResultSingleTimeStep_polytropic_enthalpy_change_before_choke_kilo_joule_per_kg(self):
    if self.stage_results[0].polytropic_enthalpy_change_before_choke_kJ_per_kg is not None:
        return sum([stage.polytropic_enthalpy_change_before_choke_kJ_per_kg for stage in self.stage_results])
    else:
        return np.nan


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.polytropic_efficiency", props=["C24"])
def CompressorTrainResultSingleTimeStep_polytropic_efficiency(self):
    return [stage.polytropic_efficiency for stage in self.stage_results]


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.asv_recirculation_loss_mw", props=["C24"])
def CompressorTrainResultSingleTimeStep_asv_recirculation_loss_mw(self):
    return sum([stage.asv_recirculation_loss_mw for stage in self.stage_results])


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.rate_has_recirculation", props=["C24"])
def CompressorTrainResultSingleTimeStep_rate_has_recirculation(self):
    return self.asv_recirculation_loss_mw > 0 or any((stage.rate_has_recirculation for stage in self.stage_results))


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.rate_exceeds_maximum", props=["C24"])
def CompressorTrainResultSingleTimeStep_rate_exceeds_maximum(self):
    if len(self.stage_results) > 0:
        return any((stage.rate_exceeds_maximum for stage in self.stage_results)) or self.chart_area_status in (ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE, ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE)
    else:
        return False


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.pressure_is_choked", props=["C24"])
def CompressorTrainResultSingleTimeStep_pressure_is_choked(self):
    return self.discharge_pressure < self.stage_results[0].discharge_pressure or any((stage.pressure_is_choked for stage in self.stage_results))


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.head_exceeds_maximum", props=["C24"])
def CompressorTrainResultSingleTimeStep_head_exceeds_maximum(self):
    return any((stage.head_exceeds_maximum for stage in self.stage_results))


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.mass_rate_asv_corrected_is_constant_for_stages", props=["C24"])
def CompressorTrainResultSingleTimeStep_mass_rate_asv_corrected_is_constant_for_stages(self):
    return len({round(stage.mass_rate_asv_corrected_kg_per_hour, 4) for stage in self.stage_results}) <= 1


@target("libecalc.domain.process.compressor.core.results.CompressorTrainResultSingleTimeStep.create_empty", props=["C24"])
def CompressorTrainResultSingleTimeStep_create_empty(cls, number_of_stages):
    return cls(inlet_stream=None, outlet_stream=None, speed=np.nan, stage_results=[CompressorTrainStageResultSingleTimeStep.create_empty()] * number_of_stages, target_pressure_status=TargetPressureStatus.NOT_CALCULATED)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled", props=["C24"])
class CompressorModelSampledValues:
    fluid_required = False


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.__init__", props=["C24"])
def CompressorModelSampled_init(self, energy_usage_type, energy_usage_values, rate_values=None, suction_pressure_values=None, discharge_pressure_values=None, power_interpolation_values=None):
    self.energy_usage_values = energy_usage_values
    self.rate_values = rate_values
    self.suction_pressure_values = suction_pressure_values
    self.discharge_pressure_values = discharge_pressure_values
    self.power_interpolation_values = power_interpolation_values
    self.function_values_are_power = energy_usage_type == EnergyUsageType.POWER
    self.power_interpolation_values = power_interpolation_values
    self.validate_minimum_one_variable()
    self.validate_equal_list_lengths()
    self.validate_non_negative_values()
    function_values = np.asarray(energy_usage_values, dtype=np.float64)
    self.fuel_values = None
    if not self.function_values_are_power and self.power_interpolation_values:
        self.fuel_values = np.asarray(energy_usage_values, dtype=np.float64)
    variables = {}
    if rate_values is not None:
        variables[RATE_NAME] = rate_values
    if suction_pressure_values is not None:
        variables[PS_NAME] = suction_pressure_values
    if discharge_pressure_values is not None:
        variables[PD_NAME] = discharge_pressure_values
    self.required_variables = list(variables.keys())
    function_value_header = 'ENERGY_USAGE'
    sampled_data = pd.DataFrame(np.asarray(list(variables.values()) + [list(function_values)]).transpose())
    sampled_data.columns = list(variables.keys()) + [function_value_header]
    apparent_dimension = len(self.required_variables)
    non_degenerated_variables = self._non_degenerated_variables(sampled_data[self.required_variables])
    geometric_dimension = len(non_degenerated_variables)
    degenerated_variables = [var for var in self.required_variables if var not in non_degenerated_variables] if geometric_dimension != apparent_dimension else []
    self._degenerated_rate = sampled_data[RATE_NAME][0] if RATE_NAME in degenerated_variables else np.inf
    self._degenerated_ps = sampled_data[PS_NAME][0] if PS_NAME in degenerated_variables else -np.inf
    self._degenerated_pd = sampled_data[PD_NAME][0] if PD_NAME in degenerated_variables else np.inf
    self.support_max_rate = RATE_NAME in self.required_variables
    qhull_compressor_model = self._get_compressor_model(geometric_dimension, non_degenerated_variables)
    sampled_data_input = sampled_data[non_degenerated_variables + [function_value_header]]
    self._qhull_sampled = qhull_compressor_model(sampled_data=sampled_data_input, function_header=FUNCTION_VALUE_HEADER)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.get_consumption_type", props=["C24"])
def CompressorModelSampled_get_consumption_type(self):
    return ConsumptionType.ELECTRICITY if self.function_values_are_power else ConsumptionType.FUEL


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.get_max_standard_rate", props=["C24"])
def CompressorModelSampled_get_max_standard_rate(self, suction_pressures=None, discharge_pressures=None):
    number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
    if self.support_max_rate:
        if self._qhull_sampled.support_max_rate:
            return np.full(shape=number_of_calculation_points, fill_value=self._qhull_sampled.get_max_rate())
        else:
            return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
    else:
        return np.full(shape=number_of_calculation_points, fill_value=np.nan)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.set_evaluation_input", props=["C24"])
def CompressorModelSampled_set_evaluation_input(self, rate, fluid_model, suction_pressure, discharge_pressure):
    if not any((input is not None for input in [rate, suction_pressure, discharge_pressure])):
        raise ValueError()
    self._rate = rate
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.evaluate", props=["C24"], modular=True)
def CompressorModelSampled_evaluate(self):
    rate = self._rate
    suction_pressure = self._suction_pressure
    discharge_pressure = self._discharge_pressure
    if rate is not None:
        rate = np.array(rate, dtype=np.float64)
        rate = np.where(rate > 0, rate - EPSILON, rate)
    if suction_pressure is not None:
        suction_pressure = np.array(suction_pressure, dtype=np.float64)
    if discharge_pressure is not None:
        discharge_pressure = np.array(discharge_pressure, dtype=np.float64)
    number_of_data_points = 0
    if rate is not None:
        number_of_data_points = rate.size
    elif suction_pressure is not None:
        number_of_data_points = suction_pressure.size
    elif discharge_pressure is not None:
        number_of_data_points = discharge_pressure.size
    interpolated_consumer_values = np.full((number_of_data_points,), np.nan)
    if rate is not None:
        zero_rate = list(rate <= 0 if rate is not None else False)
        indices_set_to_zero = self._get_indices_from_condition(condition=zero_rate)
        interpolated_consumer_values[indices_set_to_zero] = 0.0
    rate_is_positive = rate > 0 if rate is not None else True
    degenerated_rate_ok = rate <= self._degenerated_rate if rate is not None else True
    degenerated_ps_ok = suction_pressure >= self._degenerated_ps if suction_pressure is not None else True
    degenerated_pd_ok = discharge_pressure <= self._degenerated_pd if discharge_pressure is not None else True
    indices_to_evaluate = self._get_indices_from_condition(condition=rate_is_positive & degenerated_rate_ok & degenerated_ps_ok & degenerated_pd_ok)
    rate_to_evaluate = rate[indices_to_evaluate] if rate is not None else np.array([])
    ps_to_evaluate = suction_pressure[indices_to_evaluate] if suction_pressure is not None else np.array([])
    pd_to_evaluate = discharge_pressure[indices_to_evaluate] if discharge_pressure is not None else np.array([])
    interpolated_consumer_values[indices_to_evaluate] = self._qhull_sampled.evaluate(rate=rate_to_evaluate, suction_pressure=ps_to_evaluate, discharge_pressure=pd_to_evaluate)
    turbine = self.Turbine(fuel_values=self.fuel_values, power_values=np.asarray(self.power_interpolation_values, dtype=np.float64) if self.power_interpolation_values is not None else None)
    turbine_result = turbine.calculate_turbine_power_usage(interpolated_consumer_values)
    turbine_energy_result = turbine_result.get_energy_result() if turbine_result is not None else None
    turbine_power = turbine_energy_result.power.values if turbine_energy_result is not None and turbine_energy_result.power is not None else None
    energy_usage = turbine_energy_result.energy_usage.values if turbine_energy_result is not None else array_to_list(interpolated_consumer_values)
    inlet_stream_condition = CompressorStreamCondition.create_empty(number_of_periods=number_of_data_points)
    inlet_stream_condition.pressure = array_to_list(suction_pressure) if suction_pressure is not None else [np.nan] * number_of_data_points
    outlet_stream_condition = CompressorStreamCondition.create_empty(number_of_periods=number_of_data_points)
    outlet_stream_condition.pressure = array_to_list(discharge_pressure) if discharge_pressure is not None else [np.nan] * number_of_data_points
    compressor_stage_result = CompressorStageResult.create_empty(number_of_periods=number_of_data_points)
    if energy_usage is not None:
        compressor_stage_result.energy_usage = energy_usage
    compressor_stage_result.energy_usage_unit = Unit.MEGA_WATT if self.function_values_are_power else Unit.STANDARD_CUBIC_METER_PER_DAY
    compressor_stage_result.power = array_to_list(interpolated_consumer_values) if self.function_values_are_power else turbine_power
    compressor_stage_result.power_unit = Unit.MEGA_WATT
    compressor_stage_result.inlet_stream_condition = inlet_stream_condition
    compressor_stage_result.outlet_stream_condition = outlet_stream_condition
    compressor_stage_result.fluid_composition = {}
    compressor_stage_result.chart = None
    compressor_stage_result.is_valid = array_to_list(np.logical_and(~np.isnan(energy_usage), turbine_energy_result.is_valid) if turbine_energy_result is not None else ~np.isnan(energy_usage))
    compressor_stage_result.chart_area_flags = [ChartAreaFlag.NOT_CALCULATED] * len(energy_usage)
    compressor_stage_result.rate_has_recirculation = [False] * len(energy_usage)
    compressor_stage_result.rate_exceeds_maximum = [False] * len(energy_usage)
    compressor_stage_result.pressure_is_choked = [False] * len(energy_usage)
    compressor_stage_result.head_exceeds_maximum = [False] * len(energy_usage)
    compressor_stage_result.asv_recirculation_loss_mw = [0.0] * len(energy_usage)
    result = CompressorTrainResult(inlet_stream_condition=inlet_stream_condition, outlet_stream_condition=outlet_stream_condition, energy_usage=energy_usage, energy_usage_unit=Unit.MEGA_WATT if self.function_values_are_power else Unit.STANDARD_CUBIC_METER_PER_DAY, power=array_to_list(interpolated_consumer_values) if self.function_values_are_power else turbine_power, power_unit=Unit.MEGA_WATT, stage_results=[compressor_stage_result], failure_status=[CompressorTrainCommonShaftFailureStatus.NO_FAILURE] * len(energy_usage), rate_sm3_day=array_to_list(rate) if rate is not None else [np.nan] * len(energy_usage), max_standard_rate=None, turbine_result=None)
    return result


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.validate_equal_list_lengths", props=["C24"])
def CompressorModelSampled_validate_equal_list_lengths(self):
    number_of_data_points = len(self.energy_usage_values)
    for variable_name in ('rate_values', 'suction_pressure_values', 'discharge_pressure_values', 'power_interpolation_values'):
        variable = getattr(self, variable_name)
        if variable is not None:
            if len(variable) != number_of_data_points:
                msg = f'{variable_name} has wrong number of points. Should have {number_of_data_points} (equal to number of energy usage value points)'
                raise ProcessEqualLengthValidationException(message=str(msg))


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.validate_minimum_one_variable", props=["C24"])
def CompressorModelSampled_validate_minimum_one_variable(self):
    if not self.rate_values and (not self.suction_pressure_values) and (not self.discharge_pressure_values):
        msg = 'Need at least one variable for CompressorTrainSampled (rate, suction_pressure or discharge_pressure)'
        raise ProcessMissingVariableValidationException(message=str(msg))


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.validate_non_negative_values", props=["C24"])
def CompressorModelSampled_validate_non_negative_values(self):
    for variable_name in ('energy_usage_values', 'rate_values', 'suction_pressure_values', 'discharge_pressure_values', 'power_interpolation_values'):
        variable = getattr(self, variable_name)
        if variable is not None:
            for i, value in enumerate(variable):
                try:
                    float(value)
                except ValueError as e:
                    raise InvalidColumnException(header=variable_name, message=f"Got non-numeric value '{value}'.", row_index=i)
            if any((value < 0 for value in variable)):
                msg = f'All values in {variable_name} must be greater than or equal to 0'
                raise ProcessNegativeValuesValidationException(message=str(msg))


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.get_requested_inlet_pressure", props=["C24"])
def CompressorModelSampled_get_requested_inlet_pressure(self):
    return self._suction_pressure


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled.get_requested_outlet_pressure", props=["C24"])
def CompressorModelSampled_get_requested_outlet_pressure(self):
    return self._discharge_pressure


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled._get_indices_from_condition", props=["C24"])
def CompressorModelSampled_get_indices_from_condition(condition):
    return np.argwhere(condition)[:, 0]


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled._get_compressor_model", props=["C24"])
def CompressorModelSampled_get_compressor_model(geometric_dimension, non_degenerated_variables):
    if geometric_dimension == 3:
        return CompressorModelSampled3D
    elif geometric_dimension == 1:
        return CompressorModelSampled1D
    elif geometric_dimension == 2:
        if RATE_NAME not in non_degenerated_variables:
            return CompressorModelSampled2DPsPd
        elif PS_NAME not in non_degenerated_variables:
            return CompressorModelSampled2DRatePd
        elif PD_NAME not in non_degenerated_variables:
            return CompressorModelSampled2DRatePs
        else:
            raise NotImplementedError
    else:
        raise NotImplementedError


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled.CompressorModelSampled._non_degenerated_variables", props=["C24"])
def CompressorModelSampled_non_degenerated_variables(sampled_data):
    uniques = sampled_data.apply(lambda x: x.nunique())
    return list(uniques[uniques != 1].index)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d._get_extrapolation_values", props=["C24"])
def f_get_extrapolation_values(sorted_sampled_data, x_column_name, function_value_header):
    if x_column_name == PS_NAME:
        y_at_maximum_x = sorted_sampled_data[function_value_header].iloc[-1]
        return (nan, y_at_maximum_x)
    else:
        y_at_minimum_x = sorted_sampled_data[function_value_header].iloc[0]
        return (y_at_minimum_x, nan)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d._get_variable_column_name", props=["C24"])
def f_get_variable_column_name(sampled_data, allowed_x_names):
    first_column_name = str(sampled_data.columns[0])
    second_column_name = str(sampled_data.columns[1])
    if first_column_name in allowed_x_names:
        return first_column_name
    elif second_column_name in allowed_x_names:
        return second_column_name
    else:
        raise IllegalStateException(f"Invalid column names, got '{first_column_name}' and '{second_column_name}', expected {allowed_x_names}")


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d.CompressorModelSampled1D", props=["C24"])
class CompressorModelSampled1DValues:
    x_names = [RATE_NAME, PS_NAME, PD_NAME]


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d.CompressorModelSampled1D.__init__", props=["C24"])
def CompressorModelSampled1D_init(self, sampled_data, function_header):
    self._x_column_name = _get_variable_column_name(sampled_data, CompressorModelSampled1D.x_names)
    sorted_sampled_data = sampled_data.sort_values(by=self._x_column_name)
    fill_value = _get_extrapolation_values(sorted_sampled_data, self._x_column_name, function_header)
    self._max_rate = sorted_sampled_data[self._x_column_name].iloc[-1] if self._x_column_name == RATE_NAME else None
    all_variable_values_unique = len(sorted_sampled_data[self._x_column_name]) == len(set(sorted_sampled_data[self._x_column_name]))
    if not all_variable_values_unique:
        seen = set()
        duplicates = [x for x in sorted_sampled_data[self._x_column_name] if x in seen or seen.add(x)]
        msg = f'1D compressor sampled data require unique variable input values. I got non-unique {self._x_column_name} values {', '.join(duplicates)}'
        raise IllegalStateException(msg)
    self._energy_function = interp1d(x=sorted_sampled_data[self._x_column_name], y=sorted_sampled_data[function_header], bounds_error=False, fill_value=fill_value, assume_sorted=True)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d.CompressorModelSampled1D.support_max_rate", props=["C24"])
def CompressorModelSampled1D_support_max_rate(self):
    return bool(self._x_column_name == RATE_NAME)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d.CompressorModelSampled1D.evaluate", props=["C24"])
def CompressorModelSampled1D_evaluate(self, rate=None, suction_pressure=None, discharge_pressure=None, **kwargs):
    if self._x_column_name == RATE_NAME:
        return np.array(self._energy_function(rate))
    if self._x_column_name == PS_NAME:
        return np.array(self._energy_function(suction_pressure))
    if self._x_column_name == PD_NAME:
        return np.array(self._energy_function(discharge_pressure))
    raise IllegalStateException(f"Unknown column name '{self._x_column_name}', allowed column names are '{RATE_NAME}', '{PS_NAME}' or '{PD_NAME}'")


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_1d.CompressorModelSampled1D.get_max_rate", props=["C24"])
def CompressorModelSampled1D_get_max_rate(self):
    return self._max_rate


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd", props=["C24"])
class CompressorModelSampled2DRatePdValues:
    rate_axis = 0
    pd_axis = 1
    variable_order_2d = [RATE_NAME, PD_NAME]
    support_max_rate = True


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd.__init__", props=["C24"])
def CompressorModelSampled2DRatePd_init(self, sampled_data, function_header):
    self._interpolator = LinearNDInterpolator(sampled_data[self.variable_order_2d].to_numpy(), sampled_data[function_header].to_numpy(), fill_value=np.nan, rescale=True)
    convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
    lower_rate_points_qh, _, upper_rate_monotonic_correct_points_qh = get_lower_upper_qhull(convex_hull, axis=self.rate_axis, case_2d='rate_pd')
    lower_rate_points = lower_rate_points_qh.points
    upper_rate_monotonic_correct_points = upper_rate_monotonic_correct_points_qh.points
    lower_pd_points_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis)
    lower_pd_points = lower_pd_points_qh.points
    lower_rate_points_sorted = sort_ndarray_by_column(lower_rate_points, self.pd_axis)
    self._minimum_rate_function = interp1d(x=lower_rate_points_sorted[:, self.pd_axis], y=lower_rate_points_sorted[:, self.rate_axis], fill_value=(lower_rate_points_sorted[0, self.rate_axis], lower_rate_points_sorted[-1, self.rate_axis]), bounds_error=False)
    lower_pd_points_sorted = sort_ndarray_by_column(lower_pd_points, self.rate_axis)
    self._minimum_pd_function = interp1d(x=lower_pd_points_sorted[:, self.rate_axis], y=lower_pd_points_sorted[:, self.pd_axis], fill_value=(lower_pd_points_sorted[0, self.pd_axis], lower_pd_points_sorted[-1, self.pd_axis]), bounds_error=False)
    upper_monotonic_points_sorted = sort_ndarray_by_column(upper_rate_monotonic_correct_points, self.pd_axis)
    self._maximum_rate_function = interp1d(x=upper_monotonic_points_sorted[:, self.pd_axis], y=upper_monotonic_points_sorted[:, self.rate_axis], fill_value=(upper_monotonic_points_sorted[0, self.rate_axis], 0), bounds_error=False)
    upper_monotonic_points_sorted_on_rate = sort_ndarray_by_column(upper_rate_monotonic_correct_points, self.rate_axis)
    self._maximum_pd_function = interp1d(x=upper_monotonic_points_sorted_on_rate[:, self.rate_axis], y=upper_monotonic_points_sorted_on_rate[:, self.pd_axis], fill_value=(upper_monotonic_points_sorted_on_rate[0, self.pd_axis], 0), bounds_error=False)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd.setup_from_arrays", props=["C24"])
def CompressorModelSampled2DRatePd_setup_from_arrays(cls, rates, discharge_pressures, function_values):
    function_value_header = 'function_value'
    dataframe = pd.DataFrame({RATE_NAME: rates, PD_NAME: discharge_pressures, function_value_header: function_values})
    return cls(sampled_data=dataframe, function_header=function_value_header)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd.evaluate", props=["C24"])
def CompressorModelSampled2DRatePd_evaluate(self, rate, discharge_pressure, **kwargs):
    rate_projected, pd_projected = self._project_variables_for_evaluation(rate=rate, discharge_pressure=discharge_pressure)
    x_for_interpolator = np.stack((rate_projected, pd_projected), axis=-1)
    return np.array(self._interpolator(x_for_interpolator))


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd.get_max_rate", props=["C24"])
def CompressorModelSampled2DRatePd_get_max_rate(self, discharge_pressure):
    return self._maximum_rate_function(discharge_pressure)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd.get_max_discharge_pressure", props=["C24"])
def CompressorModelSampled2DRatePd_get_max_discharge_pressure(self, rate):
    if isinstance(rate, int | float):
        return float(self._maximum_pd_function(np.asarray([rate]))[0])
    return np.array(self._maximum_pd_function(rate))


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePd._project_variables_for_evaluation", props=["C24"])
def CompressorModelSampled2DRatePd_project_variables_for_evaluation(self, rate, discharge_pressure):
    rate_projected = np.fmax(rate, self._minimum_rate_function(discharge_pressure))
    discharge_pressure_projected = np.fmax(discharge_pressure, self._minimum_pd_function(rate_projected))
    return (rate_projected, discharge_pressure_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePs", props=["C24"])
class CompressorModelSampled2DRatePsValues:
    rate_axis = 0
    ps_axis = 1
    variable_order_2d = [RATE_NAME, PS_NAME]
    support_max_rate = True


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePs.__init__", props=["C24"])
def CompressorModelSampled2DRatePs_init(self, sampled_data, function_header):
    self._interpolator = LinearNDInterpolator(sampled_data[self.variable_order_2d].to_numpy(), sampled_data[function_header].to_numpy(), fill_value=np.nan, rescale=True)
    convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
    lower_rate_points_qh, _, upper_rate_monotonic_correct_points_qh = get_lower_upper_qhull(convex_hull, axis=self.rate_axis, case_2d='rate_ps')
    lower_rate_points = lower_rate_points_qh.points
    upper_rate_monotonic_correct_points = upper_rate_monotonic_correct_points_qh.points
    _, upper_ps_points_qh, _ = get_lower_upper_qhull(convex_hull, axis=self.ps_axis, case_2d='rate_ps')
    upper_ps_points = upper_ps_points_qh.points
    lower_rate_points_sorted = sort_ndarray_by_column(lower_rate_points, self.ps_axis)
    upper_ps_points_sorted = sort_ndarray_by_column(upper_ps_points, self.rate_axis)
    self._max_ps = lower_rate_points_sorted[-1, self.ps_axis]
    self._minimum_rate_function = interp1d(x=lower_rate_points_sorted[:, self.ps_axis], y=lower_rate_points_sorted[:, self.rate_axis], fill_value=(lower_rate_points_sorted[0, self.rate_axis], lower_rate_points_sorted[-1, self.rate_axis]), bounds_error=False)
    self._maximum_ps_function = interp1d(x=upper_ps_points_sorted[:, self.rate_axis], y=upper_ps_points_sorted[:, self.ps_axis], fill_value=(upper_ps_points_sorted[0, self.ps_axis], upper_ps_points_sorted[-1, self.ps_axis]), bounds_error=False)
    upper_monotonic_points_sorted = sort_ndarray_by_column(upper_rate_monotonic_correct_points, self.ps_axis)
    self._maximum_rate_function = interp1d(x=upper_monotonic_points_sorted[:, self.ps_axis], y=upper_monotonic_points_sorted[:, self.rate_axis], fill_value=(0, upper_monotonic_points_sorted[-1, self.rate_axis]), bounds_error=False)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePs.evaluate", props=["C24"])
def CompressorModelSampled2DRatePs_evaluate(self, rate, suction_pressure, **kwargs):
    rate_projected, ps_projected = self._project_variables_for_evaluation(rate=rate, ps=suction_pressure)
    x_for_interpolator = np.stack((rate_projected, ps_projected), axis=-1)
    energy_consumption = self._interpolator(x_for_interpolator)
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePs.get_max_rate", props=["C24"])
def CompressorModelSampled2DRatePs_get_max_rate(self, ps):
    return self._maximum_rate_function(ps)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DRatePs._project_variables_for_evaluation", props=["C24"])
def CompressorModelSampled2DRatePs_project_variables_for_evaluation(self, rate, ps):
    rate_projected = np.fmax(rate, self._minimum_rate_function(ps))
    ps_projected = np.fmin(ps, self._maximum_ps_function(rate_projected))
    return (rate_projected, ps_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DPsPd", props=["C24"])
class CompressorModelSampled2DPsPdValues:
    ps_axis = 0
    pd_axis = 1
    variable_order_2d = [PS_NAME, PD_NAME]
    support_max_rate = False


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DPsPd.__init__", props=["C24"])
def CompressorModelSampled2DPsPd_init(self, sampled_data, function_header):
    self._interpolator = LinearNDInterpolator(sampled_data[self.variable_order_2d].to_numpy(), sampled_data[function_header].to_numpy(), fill_value=np.nan, rescale=True)
    convex_hull = ConvexHull(sampled_data[self.variable_order_2d].to_numpy())
    lower_pd_points_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis, case_2d='ps_pd')
    lower_pd_points = lower_pd_points_qh.points
    _, upper_ps_points_qh, _ = get_lower_upper_qhull(convex_hull, axis=self.ps_axis, case_2d='ps_pd')
    upper_ps_points = upper_ps_points_qh.points
    lower_pd_points_sorted = sort_ndarray_by_column(lower_pd_points, self.ps_axis)
    upper_ps_points_sorted = sort_ndarray_by_column(upper_ps_points, self.pd_axis)
    self._minimum_pd_function = interp1d(x=lower_pd_points_sorted[:, self.ps_axis], y=lower_pd_points_sorted[:, self.pd_axis], fill_value=(lower_pd_points_sorted[0, self.pd_axis], lower_pd_points_sorted[-1, self.pd_axis]), bounds_error=False)
    self._maximum_ps_function = interp1d(x=upper_ps_points_sorted[:, self.pd_axis], y=upper_ps_points_sorted[:, self.ps_axis], fill_value=(upper_ps_points_sorted[0, self.ps_axis], upper_ps_points_sorted[-1, self.ps_axis]), bounds_error=False)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DPsPd.evaluate", props=["C24"])
def CompressorModelSampled2DPsPd_evaluate(self, suction_pressure, discharge_pressure, **kwargs):
    ps_projected, pd_projected = self._project_variables_for_evaluation(ps=suction_pressure, pd=discharge_pressure)
    x_for_interpolator = np.stack((ps_projected, pd_projected), axis=-1)
    energy_consumption = self._interpolator(x_for_interpolator)
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DPsPd.get_max_rate", props=["C24"])
def CompressorModelSampled2DPsPd_get_max_rate(self, ps=None, pd=None):
    raise NotImplementedError


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_2d.CompressorModelSampled2DPsPd._project_variables_for_evaluation", props=["C24"])
def CompressorModelSampled2DPsPd_project_variables_for_evaluation(self, ps, pd):
    pd_projected = np.fmax(pd, self._minimum_pd_function(ps))
    ps_projected = np.fmin(ps, self._maximum_ps_function(pd_projected))
    return (ps_projected, pd_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d", props=["C24"])
class K97_constants:
    EPSILON_MAX_RATE = 0.0001


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D", props=["C24"])
class CompressorModelSampled3DValues:
    rate_axis = 0
    ps_axis = 1
    pd_axis = 2
    variable_order_3d = [RATE_NAME, PS_NAME, PD_NAME]
    support_max_rate = True


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D.__init__", props=["C24"])
def CompressorModelSampled3D_init(self, sampled_data, function_header, rescale_rate=True):
    sampled_data_scaled = sampled_data[self.variable_order_3d].copy().astype('float64')
    if rescale_rate:
        self._do_rescale = True
        self._scale_factor_rate = round(2 * sampled_data[RATE_NAME].mean() / (sampled_data[PS_NAME].mean() + sampled_data[PD_NAME].mean()))
        sampled_data_scaled[RATE_NAME] = sampled_data_scaled[RATE_NAME] / self._scale_factor_rate
    else:
        self._do_rescale = False
        self._scale_factor_rate = 1.0
    qhull_points = sampled_data_scaled[self.variable_order_3d].to_numpy()
    convex_hull = ConvexHull(qhull_points)
    delaunay = Delaunay(qhull_points)
    interpolator = LinearNDInterpolator(points=delaunay, values=sampled_data[function_header].to_numpy(), fill_value=np.nan, rescale=False)
    self._interpolator = interpolator
    self._box_limits = {'min_rate': convex_hull.min_bound[self.rate_axis], 'max_rate': convex_hull.max_bound[self.rate_axis], 'max_ps': convex_hull.max_bound[self.ps_axis], 'min_pd': convex_hull.min_bound[self.pd_axis]}
    lower_rate_qh, _, self._upper_rate_monotonic_correct_qh = get_lower_upper_qhull(convex_hull, axis=self.rate_axis)
    self._lower_rate_qh_upper_ps_function, self._lower_rate_qh_lower_pd_function, self._minimum_rate_function = _setup_minimum_rate_projection_functions(lower_rate_halfhull=lower_rate_qh, rate_axis=self.rate_axis, ps_axis=self.ps_axis, pd_axis=self.pd_axis)
    self._minimum_rate_energy_function = LinearNDInterpolator(qhull_points[lower_rate_qh.original_qhull_indices, :][:, [self.ps_axis, self.pd_axis]], sampled_data[function_header[:]][lower_rate_qh.original_qhull_indices].values, fill_value=np.nan, rescale=False)
    self._upper_rate_qh_upper_ps_function, self._upper_rate_qh_lower_pd_function, self._maximum_rate_function = _setup_maximum_rate_projection_functions(upper_rate_monotonic_halfhull=self._upper_rate_monotonic_correct_qh, rate_axis=self.rate_axis, ps_axis=self.ps_axis, pd_axis=self.pd_axis)
    self._maximum_rate_energy_function = LinearNDInterpolator(points=qhull_points[self._upper_rate_monotonic_correct_qh.original_qhull_indices, :][:, [self.ps_axis, self.pd_axis]], values=sampled_data[function_header[:]][self._upper_rate_monotonic_correct_qh.original_qhull_indices].values, fill_value=np.nan, rescale=False)
    lower_pd_qh, _, _ = get_lower_upper_qhull(convex_hull, axis=self.pd_axis)
    self._minimum_pd_energy_function = LinearNDInterpolator(qhull_points[lower_pd_qh.original_qhull_indices, :][:, [self.rate_axis, self.ps_axis]], sampled_data[function_header[:]][lower_pd_qh.original_qhull_indices].values, fill_value=np.nan, rescale=False)
    self._lower_pd_qh_lower_rate_function, self._lower_pd_qh_upper_ps_function, self._minimum_pd_function = _setup_minimum_pd_projection_functions(lower_pd_halfhull=lower_pd_qh, rate_axis=self.rate_axis, ps_axis=self.ps_axis, pd_axis=self.pd_axis)
    _, upper_ps_qh, _ = get_lower_upper_qhull(convex_hull, axis=self.ps_axis)
    self._maximum_ps_energy_function = LinearNDInterpolator(qhull_points[upper_ps_qh.original_qhull_indices, :][:, [self.rate_axis, self.pd_axis]], sampled_data[function_header[:]][upper_ps_qh.original_qhull_indices].values, fill_value=np.nan, rescale=False)
    self._upper_ps_qh_lower_rate_function, self._upper_ps_qh_lower_pd_function, self._maximum_ps_function = _setup_maximum_ps_projection_functions(upper_ps_halfhull=upper_ps_qh, rate_axis=self.rate_axis, ps_axis=self.ps_axis, pd_axis=self.pd_axis)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D.get_max_rate", props=["C24"])
def CompressorModelSampled3D_get_max_rate(self, ps, pd):
    if self._maximum_rate_function is None:
        self._setup_projection_functions_for_max_rate()
    pd_projected = np.fmax(pd, self._upper_rate_qh_lower_pd_function(ps))
    ps_projected = np.fmin(ps, self._upper_rate_qh_upper_ps_function(pd_projected))
    max_rates = self._maximum_rate_function(np.column_stack((ps_projected, pd_projected)))
    if self._do_rescale:
        max_rates = max_rates * self._scale_factor_rate
    return max_rates


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D.evaluate", props=["C24"])
def CompressorModelSampled3D_evaluate(self, rate, suction_pressure, discharge_pressure, **kwargs):
    rate_scaled = rate / self._scale_factor_rate if self._do_rescale else rate
    x_for_interpolator = _convert_variables_for_interpolator(rate=rate_scaled, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    energy_consumption = self._interpolator(x_for_interpolator)
    nan_value_indices = np.argwhere(np.isnan(energy_consumption))[:, 0]
    energy_consumption[nan_value_indices] = self._project_and_calculate_outsiders_rate(rate=rate_scaled[nan_value_indices], suction_pressure=suction_pressure[nan_value_indices], discharge_pressure=discharge_pressure[nan_value_indices])
    nan_value_indices = nan_value_indices[np.argwhere(np.isnan(energy_consumption[nan_value_indices]))[:, 0]]
    energy_consumption[nan_value_indices] = self._project_and_calculate_outsiders_pd(rate=rate_scaled[nan_value_indices], suction_pressure=suction_pressure[nan_value_indices], discharge_pressure=discharge_pressure[nan_value_indices])
    nan_value_indices = nan_value_indices[np.argwhere(np.isnan(energy_consumption[nan_value_indices]))[:, 0]]
    energy_consumption[nan_value_indices] = self._project_and_calculate_outsiders_ps(rate=rate_scaled[nan_value_indices], suction_pressure=suction_pressure[nan_value_indices], discharge_pressure=discharge_pressure[nan_value_indices])
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D._project_variables_for_evaluation", props=["C24"])
def CompressorModelSampled3D_project_variables_for_evaluation(self, rate, suction_pressure, discharge_pressure):
    rate, suction_pressure, discharge_pressure = _project_on_rate(lower_rate_qh_lower_pd_function=self._lower_rate_qh_lower_pd_function, lower_rate_qh_upper_ps_function=self._lower_rate_qh_upper_ps_function, minimum_rate_function=self._minimum_rate_function, rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    rate, suction_pressure, discharge_pressure = _project_on_pd(lower_pd_qh_lower_rate_function=self._lower_pd_qh_lower_rate_function, lower_pd_qh_upper_ps_function=self._lower_pd_qh_upper_ps_function, minimum_pd_function=self._minimum_pd_function, rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    rate, suction_pressure, discharge_pressure = _project_on_ps(upper_ps_qh_lower_rate_function=self._upper_ps_qh_lower_rate_function, upper_ps_qh_lower_pd_function=self._upper_ps_qh_lower_pd_function, maximum_ps_function=self._maximum_ps_function, rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    return (rate, suction_pressure, discharge_pressure)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D._project_and_calculate_outsiders_rate", props=["C24"])
def CompressorModelSampled3D_project_and_calculate_outsiders_rate(self, rate, suction_pressure, discharge_pressure):
    ps_projected, pd_projected, minimum_rates = _get_minimum_rates(lower_rate_qh_lower_pd_function=self._lower_rate_qh_lower_pd_function, lower_rate_qh_upper_ps_function=self._lower_rate_qh_upper_ps_function, minimum_rate_function=self._minimum_rate_function, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    numerical_uncertainty_factor = (self._box_limits['max_rate'] - self._box_limits['min_rate']) * EPSILON_MAX_RATE
    indices_rates_below_minimum = np.argwhere(rate <= minimum_rates + numerical_uncertainty_factor)[:, 0]
    energy_consumption = np.full(rate.size, np.nan)
    energy_consumption[indices_rates_below_minimum] = self._minimum_rate_energy_function(ps_projected[indices_rates_below_minimum], pd_projected[indices_rates_below_minimum])
    ps_projected, pd_projected, maximum_rates = _get_maximum_rates(upper_rate_qh_lower_pd_function=self._upper_rate_qh_lower_pd_function, upper_rate_qh_upper_ps_function=self._upper_rate_qh_upper_ps_function, maximum_rate_function=self._maximum_rate_function, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    indices_rates_close_to_maximum = np.argwhere(np.abs(rate - maximum_rates) < numerical_uncertainty_factor)[:, 0]
    energy_consumption[indices_rates_close_to_maximum] = self._maximum_rate_energy_function(ps_projected[indices_rates_close_to_maximum], pd_projected[indices_rates_close_to_maximum])
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D._project_and_calculate_outsiders_pd", props=["C24"])
def CompressorModelSampled3D_project_and_calculate_outsiders_pd(self, rate, suction_pressure, discharge_pressure):
    ps_projected, rate_projected, minimum_pd = _get_minimum_pd(lower_pd_qh_lower_rate_function=self._lower_pd_qh_lower_rate_function, lower_pd_qh_upper_ps_function=self._lower_pd_qh_upper_ps_function, minimum_pd_function=self._minimum_pd_function, rate=rate, suction_pressure=suction_pressure)
    indices_pd_below_minimum = np.argwhere(discharge_pressure <= minimum_pd)[:, 0]
    energy_consumption = np.full(rate.size, np.nan)
    energy_consumption[indices_pd_below_minimum] = self._minimum_pd_energy_function(ps_projected[indices_pd_below_minimum], rate_projected[indices_pd_below_minimum])
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d.CompressorModelSampled3D._project_and_calculate_outsiders_ps", props=["C24"])
def CompressorModelSampled3D_project_and_calculate_outsiders_ps(self, rate, suction_pressure, discharge_pressure):
    rate_projected, pd_projected, maximum_ps = _get_maximum_ps(upper_ps_qh_lower_rate_function=self._upper_ps_qh_lower_rate_function, upper_ps_qh_lower_pd_function=self._upper_ps_qh_lower_pd_function, maximum_ps_function=self._maximum_ps_function, rate=rate, discharge_pressure=discharge_pressure)
    indices_ps_above_maximum = np.argwhere(suction_pressure >= maximum_ps)[:, 0]
    energy_consumption = np.full(rate.size, np.nan)
    energy_consumption[indices_ps_above_maximum] = self._maximum_ps_energy_function(rate_projected[indices_ps_above_maximum], pd_projected[indices_ps_above_maximum])
    return energy_consumption


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._convert_variables_for_interpolator", props=["C24"])
def f_convert_variables_for_interpolator(rate, suction_pressure, discharge_pressure):
    return np.stack((rate, suction_pressure, discharge_pressure), axis=-1)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._get_maximum_rates", props=["C24"])
def f_get_maximum_rates(upper_rate_qh_lower_pd_function, upper_rate_qh_upper_ps_function, maximum_rate_function, suction_pressure, discharge_pressure):
    pd_projected = np.fmax(discharge_pressure, upper_rate_qh_lower_pd_function(suction_pressure))
    ps_projected = np.fmin(suction_pressure, upper_rate_qh_upper_ps_function(pd_projected))
    maximum_rates = maximum_rate_function(ps_projected, pd_projected)
    return (ps_projected, pd_projected, maximum_rates)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._get_minimum_rates", props=["C24"])
def f_get_minimum_rates(lower_rate_qh_lower_pd_function, lower_rate_qh_upper_ps_function, minimum_rate_function, suction_pressure, discharge_pressure):
    pd_projected = np.fmax(discharge_pressure, lower_rate_qh_lower_pd_function(suction_pressure))
    ps_projected = np.fmin(suction_pressure, lower_rate_qh_upper_ps_function(pd_projected))
    minimum_rates = minimum_rate_function(ps_projected, pd_projected)
    return (ps_projected, pd_projected, minimum_rates)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._get_maximum_ps", props=["C24"])
def f_get_maximum_ps(upper_ps_qh_lower_rate_function, upper_ps_qh_lower_pd_function, maximum_ps_function, rate, discharge_pressure):
    rate_projected = np.fmax(rate, upper_ps_qh_lower_rate_function(discharge_pressure))
    pd_projected = np.fmax(discharge_pressure, upper_ps_qh_lower_pd_function(rate_projected))
    maximum_ps = maximum_ps_function(rate_projected, pd_projected)
    return (rate_projected, pd_projected, maximum_ps)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._get_minimum_pd", props=["C24"])
def f_get_minimum_pd(lower_pd_qh_lower_rate_function, lower_pd_qh_upper_ps_function, minimum_pd_function, rate, suction_pressure):
    rate_projected = np.fmax(rate, lower_pd_qh_lower_rate_function(suction_pressure))
    ps_projected = np.fmin(suction_pressure, lower_pd_qh_upper_ps_function(rate_projected))
    minimum_pd = minimum_pd_function(rate_projected, ps_projected)
    return (rate_projected, ps_projected, minimum_pd)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._project_on_rate", props=["C24"])
def f_project_on_rate(lower_rate_qh_lower_pd_function, lower_rate_qh_upper_ps_function, minimum_rate_function, rate, suction_pressure, discharge_pressure):
    pd_projected = np.fmax(discharge_pressure, lower_rate_qh_lower_pd_function(suction_pressure))
    ps_projected = np.fmin(suction_pressure, lower_rate_qh_upper_ps_function(pd_projected))
    rate_projected = np.fmax(rate, minimum_rate_function(ps_projected, pd_projected) + EPSILON)
    return (rate_projected, ps_projected, pd_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._project_on_pd", props=["C24"])
def f_project_on_pd(lower_pd_qh_lower_rate_function, lower_pd_qh_upper_ps_function, minimum_pd_function, rate, suction_pressure, discharge_pressure):
    rate_projected = np.fmax(rate, lower_pd_qh_lower_rate_function(suction_pressure))
    ps_projected = np.fmin(suction_pressure, lower_pd_qh_upper_ps_function(rate_projected))
    pd_projected = np.fmax(discharge_pressure, minimum_pd_function(rate_projected, ps_projected) + EPSILON)
    return (rate_projected, ps_projected, pd_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._project_on_ps", props=["C24"])
def f_project_on_ps(upper_ps_qh_lower_rate_function, upper_ps_qh_lower_pd_function, maximum_ps_function, rate, suction_pressure, discharge_pressure):
    rate_projected = np.fmax(rate, upper_ps_qh_lower_rate_function(discharge_pressure))
    pd_projected = np.fmax(discharge_pressure, upper_ps_qh_lower_pd_function(rate_projected))
    ps_projected = np.fmin(suction_pressure, maximum_ps_function(rate_projected, pd_projected) - EPSILON)
    return (rate_projected, ps_projected, pd_projected)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._setup_minimum_rate_projection_functions", props=["C24"])
def f_setup_minimum_rate_projection_functions(lower_rate_halfhull, rate_axis=0, ps_axis=1, pd_axis=2):
    if not isinstance(lower_rate_halfhull, HalfConvexHull):
        msg = 'lower_rate_halfhull is not of type HalfConvexHull'
        raise TypeError()
    lower_rate_points = lower_rate_halfhull.points
    non_rate_axes = [ps_axis, pd_axis]
    ps_axis_2d = 0 if ps_axis < pd_axis else 1
    pd_axis_2d = 1 if ps_axis < pd_axis else 0
    lower_rate_qh = ConvexHull(lower_rate_points[:, non_rate_axes])
    lower_rate_qh_lower_pd_qh, _, _ = get_lower_upper_qhull(lower_rate_qh, axis=pd_axis_2d)
    lower_rate_qh_lower_pd_points = lower_rate_qh_lower_pd_qh.points
    _, lower_rate_qh_upper_ps_qh, _ = get_lower_upper_qhull(lower_rate_qh, axis=ps_axis_2d)
    lower_rate_qh_upper_ps_points = lower_rate_qh_upper_ps_qh.points
    lower_rate_qh_lower_pd_points_sorted = sort_ndarray_by_column(arr=lower_rate_qh_lower_pd_points, column_index=ps_axis_2d)
    lower_rate_qh_upper_ps_points_sorted = sort_ndarray_by_column(arr=lower_rate_qh_upper_ps_points, column_index=pd_axis_2d)
    lower_rate_qh_lower_pd_function = interp1d(x=lower_rate_qh_lower_pd_points_sorted[:, ps_axis_2d], y=lower_rate_qh_lower_pd_points_sorted[:, pd_axis_2d], fill_value=(lower_rate_qh_lower_pd_points_sorted[0, pd_axis_2d], lower_rate_qh_lower_pd_points_sorted[-1, pd_axis_2d]), bounds_error=False)
    lower_rate_qh_upper_ps_function = interp1d(x=lower_rate_qh_upper_ps_points_sorted[:, pd_axis_2d], y=lower_rate_qh_upper_ps_points_sorted[:, ps_axis_2d], fill_value=(lower_rate_qh_upper_ps_points_sorted[0, ps_axis_2d], lower_rate_qh_upper_ps_points_sorted[-1, ps_axis_2d]), bounds_error=False)
    lower_rate_halfhull_reordered = lower_rate_halfhull.reorder_axes(axis=rate_axis, variable_axes=non_rate_axes)
    minimum_rate_function = LinearInterpolatorSimplicesDefined(half_convex_hull=lower_rate_halfhull_reordered, fill_value=0.0)
    return (lower_rate_qh_upper_ps_function, lower_rate_qh_lower_pd_function, minimum_rate_function)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._setup_minimum_pd_projection_functions", props=["C24"])
def f_setup_minimum_pd_projection_functions(lower_pd_halfhull, rate_axis=0, ps_axis=1, pd_axis=2):
    if not isinstance(lower_pd_halfhull, HalfConvexHull):
        raise TypeError()
    lower_pd_points = lower_pd_halfhull.points
    non_pd_axes = [rate_axis, ps_axis]
    rate_axis_2d = 0 if rate_axis < ps_axis else 1
    ps_axis_2d = 1 if rate_axis < ps_axis else 0
    lower_pd_qh = ConvexHull(lower_pd_points[:, non_pd_axes])
    lower_pd_qh_lower_rate_qh, _, _ = get_lower_upper_qhull(lower_pd_qh, axis=rate_axis_2d)
    lower_pd_qh_lower_rate_points = lower_pd_qh_lower_rate_qh.points
    _, lower_pd_qh_upper_ps_qh, _ = get_lower_upper_qhull(lower_pd_qh, axis=ps_axis_2d)
    lower_pd_qh_upper_ps_points = lower_pd_qh_upper_ps_qh.points
    lower_pd_qh_lower_rate_points_sorted = sort_ndarray_by_column(arr=lower_pd_qh_lower_rate_points, column_index=ps_axis_2d)
    lower_pd_qh_upper_ps_points_sorted = sort_ndarray_by_column(arr=lower_pd_qh_upper_ps_points, column_index=rate_axis_2d)
    lower_pd_qh_lower_rate_function = interp1d(x=lower_pd_qh_lower_rate_points_sorted[:, ps_axis_2d], y=lower_pd_qh_lower_rate_points_sorted[:, rate_axis_2d], fill_value=(lower_pd_qh_lower_rate_points_sorted[0, rate_axis_2d], lower_pd_qh_lower_rate_points_sorted[-1, rate_axis_2d]), bounds_error=False)
    lower_pd_qh_upper_ps_function = interp1d(x=lower_pd_qh_upper_ps_points_sorted[:, rate_axis_2d], y=lower_pd_qh_upper_ps_points_sorted[:, ps_axis_2d], fill_value=(lower_pd_qh_upper_ps_points_sorted[0, ps_axis_2d], lower_pd_qh_upper_ps_points_sorted[-1, ps_axis_2d]), bounds_error=False)
    lower_pd_halfhull_reordered = lower_pd_halfhull.reorder_axes(axis=pd_axis, variable_axes=non_pd_axes)
    minimum_pd_function = LinearInterpolatorSimplicesDefined(half_convex_hull=lower_pd_halfhull_reordered, fill_value=0.0)
    return (lower_pd_qh_lower_rate_function, lower_pd_qh_upper_ps_function, minimum_pd_function)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._setup_maximum_ps_projection_functions", props=["C24"])
def f_setup_maximum_ps_projection_functions(upper_ps_halfhull, rate_axis=0, ps_axis=1, pd_axis=2):
    if not isinstance(upper_ps_halfhull, HalfConvexHull):
        msg = 'upper_ps_halfhull is not of type HalfConvexHull'
        raise TypeError()
    upper_ps_points = upper_ps_halfhull.points
    non_ps_axes = [rate_axis, pd_axis]
    rate_axis_2d = 0 if rate_axis < pd_axis else 1
    pd_axis_2d = 1 if rate_axis < pd_axis else 0
    upper_ps_qh = ConvexHull(upper_ps_points[:, non_ps_axes])
    upper_ps_qh_lower_rate_qh, _, _ = get_lower_upper_qhull(upper_ps_qh, axis=rate_axis_2d)
    upper_ps_qh_lower_rate_points = upper_ps_qh_lower_rate_qh.points
    upper_ps_qh_lower_pd_qh, _, _ = get_lower_upper_qhull(upper_ps_qh, axis=pd_axis_2d)
    upper_ps_qh_lower_pd_points = upper_ps_qh_lower_pd_qh.points
    upper_ps_qh_lower_rate_points_sorted = sort_ndarray_by_column(arr=upper_ps_qh_lower_rate_points, column_index=pd_axis_2d)
    upper_ps_qh_lower_pd_points_sorted = sort_ndarray_by_column(arr=upper_ps_qh_lower_pd_points, column_index=rate_axis_2d)
    upper_ps_qh_lower_rate_function = interp1d(x=upper_ps_qh_lower_rate_points_sorted[:, pd_axis_2d], y=upper_ps_qh_lower_rate_points_sorted[:, rate_axis_2d], fill_value=(upper_ps_qh_lower_rate_points_sorted[0, rate_axis_2d], upper_ps_qh_lower_rate_points_sorted[-1, rate_axis_2d]), bounds_error=False)
    upper_ps_qh_lower_pd_function = interp1d(x=upper_ps_qh_lower_pd_points_sorted[:, rate_axis_2d], y=upper_ps_qh_lower_pd_points_sorted[:, pd_axis_2d], fill_value=(upper_ps_qh_lower_pd_points_sorted[0, pd_axis_2d], upper_ps_qh_lower_pd_points_sorted[-1, pd_axis_2d]), bounds_error=False)
    upper_ps_halfhull_reordered = upper_ps_halfhull.reorder_axes(axis=ps_axis, variable_axes=non_ps_axes)
    maximum_ps_function = LinearInterpolatorSimplicesDefined(half_convex_hull=upper_ps_halfhull_reordered, fill_value=np.inf)
    return (upper_ps_qh_lower_rate_function, upper_ps_qh_lower_pd_function, maximum_ps_function)


@target("libecalc.domain.process.compressor.core.sampled.compressor_model_sampled_3d._setup_maximum_rate_projection_functions", props=["C24"])
def f_setup_maximum_rate_projection_functions(upper_rate_monotonic_halfhull, rate_axis=0, ps_axis=1, pd_axis=2):
    if not isinstance(upper_rate_monotonic_halfhull, HalfConvexHull):
        msg = 'upper_rate_monotonic_halfhull is not of type HalfConvexHull'
        raise TypeError()
    upper_rate_monotonic_points = upper_rate_monotonic_halfhull.points
    non_rate_axes = [axis for axis in range(3) if axis != rate_axis]
    ps_axis_2d = 0 if ps_axis < pd_axis else 1
    pd_axis_2d = 1 if ps_axis < pd_axis else 0
    upper_rate_qh = ConvexHull(upper_rate_monotonic_points[:, non_rate_axes])
    upper_rate_qh_lower_pd_qh, _, _ = get_lower_upper_qhull(upper_rate_qh, axis=pd_axis_2d)
    upper_rate_qh_lower_pd_points = upper_rate_qh_lower_pd_qh.points
    _, upper_rate_qh_upper_ps_qh, _ = get_lower_upper_qhull(upper_rate_qh, axis=ps_axis_2d)
    upper_rate_qh_upper_ps_points = upper_rate_qh_upper_ps_qh.points
    upper_rate_qh_lower_pd_points_sorted = sort_ndarray_by_column(arr=upper_rate_qh_lower_pd_points, column_index=pd_axis_2d)
    upper_rate_qh_upper_ps_points_sorted = sort_ndarray_by_column(arr=upper_rate_qh_upper_ps_points, column_index=ps_axis_2d)
    upper_rate_qh_lower_pd_function = interp1d(x=upper_rate_qh_lower_pd_points_sorted[:, ps_axis_2d], y=upper_rate_qh_lower_pd_points_sorted[:, pd_axis_2d], fill_value=(upper_rate_qh_lower_pd_points_sorted[0, pd_axis_2d], upper_rate_qh_lower_pd_points_sorted[-1, pd_axis_2d]), bounds_error=False)
    upper_rate_qh_upper_ps_function = interp1d(x=upper_rate_qh_upper_ps_points_sorted[:, pd_axis_2d], y=upper_rate_qh_upper_ps_points_sorted[:, ps_axis_2d], fill_value=(upper_rate_qh_upper_ps_points_sorted[0, ps_axis_2d], upper_rate_qh_upper_ps_points_sorted[-1, ps_axis_2d]), bounds_error=False)
    upper_rate_monotonic_halfhull_reordered = upper_rate_monotonic_halfhull.reorder_axes(axis=rate_axis, variable_axes=non_rate_axes)
    maximum_rate_function = LinearInterpolatorSimplicesDefined(half_convex_hull=upper_rate_monotonic_halfhull_reordered, fill_value=0.0)
    return (upper_rate_qh_upper_ps_function, upper_rate_qh_lower_pd_function, maximum_rate_function)


@target("libecalc.domain.process.compressor.core.sampled.constants", props=["C24"])
class K118_constants:
    EPSILON = 1e-15
    RATE_NAME = 'RATE'
    PS_NAME = 'SUCTION_PRESSURE'
    PD_NAME = 'DISCHARGE_PRESSURE'
    FUNCTION_VALUE_HEADER = 'ENERGY_USAGE'


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.sort_ndarray_by_column", props=["C24"])
def f_sort_ndarray_by_column(arr, column_index):
    return np.array(arr[arr[:, column_index].argsort()])


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.Node.scale", props=["C24"])
def Node_scale(self, scale_factors):
    coords_scaled = [self.coordinates[idx] / scale_factors[idx] for idx in range(len(self.coordinates))]
    return Node(coordinates=coords_scaled)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull", props=["C24"])
class HalfConvexHullValues:
    original_qhull_indices = None
    neighbors = None


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull.nsimplex", props=["C24"])
def HalfConvexHull_nsimplex(self):
    return self.simplices.shape[0]


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull.npoints", props=["C24"])
def HalfConvexHull_npoints(self):
    return self.points.shape[0]


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull.ndim", props=["C24"])
def HalfConvexHull_ndim(self):
    return self.points.shape[1]


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull.reorder_axes", props=["C24"])
def HalfConvexHull_reorder_axes(self, axis, variable_axes):
    new_axes = [axis] + variable_axes
    points_reordered = self.points[:, new_axes]
    equations_reordered = self.equations[:, new_axes + [-1]]
    return HalfConvexHull(points=points_reordered, simplices=self.simplices, axis=0, equations=equations_reordered)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.HalfConvexHull.vertices", props=["C24"])
def HalfConvexHull_vertices(self):
    return np.unique(self.simplices)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common._compute_simplices_in_new_pointset", props=["C24"])
def f_compute_simplices_in_new_pointset(original_simplices, new_pointset, default=-999):
    reindex_map = {value: index for index, value in enumerate(new_pointset)}
    simplices_reindexed = np.asarray(list(map(np.vectorize(lambda x: reindex_map.get(x, default)), original_simplices)))
    return simplices_reindexed


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.get_lower_upper_qhull", props=["C24"])
def f_get_lower_upper_qhull(qh, axis=0, case_2d='rate_ps'):
    test_point = (qh.max_bound + qh.min_bound) / 2
    non_boundary_simplices = np.argwhere(qh.equations[:, axis] != 0.0)[:, 0]
    eqs_non_boundary_unified = qh.equations[non_boundary_simplices, :] / qh.equations[non_boundary_simplices, axis].reshape(-1, 1)
    eval_axes = [x for x in range(qh.ndim) if x != axis]
    test_values = -1 * eqs_non_boundary_unified[:, -1]
    for ax in eval_axes:
        test_values -= eqs_non_boundary_unified[:, ax] * test_point[ax]
    upper_simplices_indices = non_boundary_simplices[test_values >= test_point[axis]]
    lower_simplices_indices = non_boundary_simplices[test_values <= test_point[axis]]
    upper_point_indices = np.unique(qh.simplices[upper_simplices_indices, :].reshape(-1, 1))
    lower_point_indices = np.unique(qh.simplices[lower_simplices_indices, :].reshape(-1, 1))
    upper_points = qh.points[upper_point_indices, :]
    lower_points = qh.points[lower_point_indices, :]
    lower_simplices = qh.simplices[lower_simplices_indices, :]
    lower_simplices_indexed_to_new_pointset = _compute_simplices_in_new_pointset(original_simplices=lower_simplices, new_pointset=lower_point_indices)
    lower_equations = qh.equations[lower_simplices_indices, :]
    upper_simplices = qh.simplices[upper_simplices_indices, :]
    upper_simplices_indexed_to_new_pointset = _compute_simplices_in_new_pointset(original_simplices=upper_simplices, new_pointset=upper_point_indices)
    upper_equations = qh.equations[upper_simplices_indices, :]
    lower_neighbors = _compute_simplices_in_new_pointset(original_simplices=qh.neighbors[lower_simplices_indices, :], new_pointset=lower_simplices_indices)
    upper_neighbors = _compute_simplices_in_new_pointset(original_simplices=qh.neighbors[upper_simplices_indices, :], new_pointset=upper_simplices_indices)
    lower_qh = HalfConvexHull(points=lower_points, simplices=lower_simplices_indexed_to_new_pointset, equations=lower_equations, axis=axis, original_qhull_indices=lower_point_indices, neighbors=lower_neighbors)
    upper_qh = HalfConvexHull(points=upper_points, simplices=upper_simplices_indexed_to_new_pointset, equations=upper_equations, axis=axis, original_qhull_indices=upper_point_indices, neighbors=upper_neighbors)
    if axis == 0:
        if qh.ndim == 3:
            eq_upper = qh.equations[upper_simplices_indices, :] / qh.equations[upper_simplices_indices, axis].reshape(-1, 1)
            upper_monotonic_correct_simplices_indices = upper_simplices_indices[np.argwhere((eq_upper[:, 1] <= 0) & (eq_upper[:, 2] >= 0))[:, 0]]
            upper_monotonic_correct_point_indices = np.unique(qh.simplices[upper_monotonic_correct_simplices_indices, :].reshape(-1, 1))
            upper_monotonic_correct_points = qh.points[upper_monotonic_correct_point_indices, :]
            upper_monotonic_correct_neighbors = _compute_simplices_in_new_pointset(original_simplices=qh.neighbors[upper_monotonic_correct_simplices_indices, :], new_pointset=upper_monotonic_correct_simplices_indices)
        elif qh.ndim == 2:
            do_monotonic = True
            upper_monotonic_correct_neighbors = None
            eq_upper = qh.equations[upper_simplices_indices, :] / qh.equations[upper_simplices_indices, axis].reshape(-1, 1)
            if case_2d == 'rate_ps':
                upper_monotonic_correct_simplices_indices = upper_simplices_indices[np.argwhere(eq_upper[:, 1] <= 0)[:, 0]]
            elif case_2d == 'rate_pd':
                upper_monotonic_correct_simplices_indices = upper_simplices_indices[np.argwhere(eq_upper[:, 1] >= 0)[:, 0]]
            else:
                do_monotonic = False
                upper_monotonic_correct_points = None
            if do_monotonic:
                upper_monotonic_correct_point_indices = np.unique(qh.simplices[upper_monotonic_correct_simplices_indices, :].reshape(-1, 1))
                upper_monotonic_correct_points = qh.points[upper_monotonic_correct_point_indices, :]
    else:
        upper_monotonic_correct_points = None
    if upper_monotonic_correct_points is not None:
        upper_monotonic_correct_simplices = qh.simplices[upper_monotonic_correct_simplices_indices, :]
        upper_monotonic_correct_simplices_indexed_to_new_pointset = _compute_simplices_in_new_pointset(original_simplices=upper_monotonic_correct_simplices, new_pointset=upper_monotonic_correct_point_indices)
        upper_monotonic_correct_equations = qh.equations[upper_monotonic_correct_simplices_indices, :]
        upper_monotonic_correct_qh = HalfConvexHull(points=upper_monotonic_correct_points, simplices=upper_monotonic_correct_simplices_indexed_to_new_pointset, equations=upper_monotonic_correct_equations, axis=axis, original_qhull_indices=upper_monotonic_correct_point_indices, neighbors=upper_monotonic_correct_neighbors)
    else:
        upper_monotonic_correct_qh = None
    return (lower_qh, upper_qh, upper_monotonic_correct_qh)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.Simplex.__init__", props=["C24"])
def Simplex_init(self, nodes, equation_coefficients, rescale=True):
    self.nodes = nodes
    self._ndim = len(nodes[0].coordinates)
    if rescale:
        self._scale_factors = [max([node.coordinates[coordidx] for node in nodes]) for coordidx in range(self._ndim)]
        nodes_scaled = [node.scale(self._scale_factors) for node in nodes]
        self._equation = self._calculate_plane_equation(nodes=nodes_scaled)
    else:
        self._scale_factors = np.full(shape=self._ndim, fill_value=1.0).tolist()
        self._equation = equation_coefficients


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.Simplex._calculate_plane_equation", props=["C24"])
def Simplex_calculate_plane_equation(nodes):
    p1 = np.asarray(nodes[0].coordinates)
    p2 = np.asarray(nodes[1].coordinates)
    p3 = np.asarray(nodes[2].coordinates)
    v1 = p1 - p3
    v2 = p2 - p3
    n = np.cross(v1, v2)
    d = np.dot(n, p1)
    equation = np.append(n, -d)
    return equation


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.Simplex.evaluate_surface", props=["C24"])
def Simplex_evaluate_surface(self, function_axis, variables_to_evaluate):
    if self._equation[function_axis] == 0:
        return np.full(variables_to_evaluate.shape[0], np.nan)
    eval_axes = [x for x in range(self._ndim) if x != function_axis]
    equation_unified = -1.0 * self._equation / self._equation[function_axis]
    evaluated = equation_unified[-1]
    variables_to_evaluate_index = 0
    for ax in eval_axes:
        evaluated += equation_unified[ax] * variables_to_evaluate[:, variables_to_evaluate_index] / self._scale_factors[ax]
        variables_to_evaluate_index += 1
    evaluated_unscaled = evaluated * self._scale_factors[function_axis]
    return evaluated_unscaled


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined.__init__", props=["C24"])
def LinearInterpolatorSimplicesDefined_init(self, half_convex_hull, fill_value=np.nan, rescale=False, fill_convex_hull=True):
    if not isinstance(half_convex_hull, HalfConvexHull):
        msg = 'half_convex_hull is not of type HalfConvexHull'
        raise TypeError()
    self._half_convex_hull = half_convex_hull
    self._function_value_axis = half_convex_hull.axis
    self._variable_axes = [x for x in range(half_convex_hull.ndim) if x != half_convex_hull.axis]
    self._ndim = half_convex_hull.ndim - 1
    self._simplices = self._setup_simplices_from_qhulltable(simplex_table=half_convex_hull.simplices, equations_table=half_convex_hull.equations, points_table=half_convex_hull.points, rescale=rescale)
    self._fill_value = fill_value
    self._fill_convex_function = None
    if fill_convex_hull:
        self._fill_convex_function = LinearNDInterpolator(points=half_convex_hull.points[:, [1, 2]], values=half_convex_hull.points[:, 0], rescale=False, fill_value=self._fill_value)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined.__call__", props=["C24"])
def LinearInterpolatorSimplicesDefined_call(self, *args):
    if len(args) == 1:
        return self.evaluate(variable_array=args[0])
    elif len(args) == self._ndim:
        variable_array = np.stack(args, axis=-1)
        return self.evaluate(variable_array=variable_array)


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined._setup_simplices_from_qhulltable", props=["C24"])
def LinearInterpolatorSimplicesDefined_setup_simplices_from_qhulltable(simplex_table, equations_table, points_table, rescale=True):
    simplices = []
    for row in range(simplex_table.shape[0]):
        point_list = simplex_table[row, :]
        simplex_point_list = [Node(points_table[point_list[index]]) for index in range(3)]
        simplex = Simplex(nodes=simplex_point_list, equation_coefficients=equations_table[row, :], rescale=rescale)
        simplices.append(simplex)
    return simplices


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined._points_inside_simplex", props=["C24"])
def LinearInterpolatorSimplicesDefined_points_inside_simplex(points, simplex_point1, simplex_point2, simplex_point3):
    input_points_is_inside_simplex = LinearInterpolatorSimplicesDefined._is_inside(p=points, a=simplex_point1, b=simplex_point2, c=simplex_point3)
    input_points_inside_simplex_indices = np.argwhere(input_points_is_inside_simplex > 0)[:, 0]
    return input_points_inside_simplex_indices


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined._is_inside", props=["C24"])
def LinearInterpolatorSimplicesDefined_is_inside(p, a, b, c):

    def cross_2d(u, v):
        return u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]

    def check_side(p, v0, v1, ref):
        v2 = p - ref
        cp1 = cross_2d(np.tile(v0, (p.shape[0], 1)), v2)
        cp2 = cross_2d(np.tile(v0, (p.shape[0], 1)), np.tile(v1, (p.shape[0], 1)))
        return cp1 * cp2
    inside = np.ones(p.shape[0])
    inside[check_side(p, c - b, a - b, b) < 0] = 0
    inside[check_side(p, c - a, b - a, a) < 0] = 0
    inside[check_side(p, b - a, c - a, a) < 0] = 0
    return inside


@target("libecalc.domain.process.compressor.core.sampled.convex_hull_common.LinearInterpolatorSimplicesDefined.evaluate", props=["C24"])
def LinearInterpolatorSimplicesDefined_evaluate(self, variable_array):
    if variable_array.shape[1] != self._ndim:
        msg = 'variable_array.shape[1] does not match self._ndim'
        raise ValueError()
    fill_value = self._fill_value if self._fill_convex_function is None else np.nan
    result = np.full(variable_array.shape[0], fill_value)
    for simplex in self._simplices:
        input_points_inside_simplex_indices = self._points_inside_simplex(points=variable_array, simplex_point1=np.array(simplex.nodes[0].coordinates)[self._variable_axes], simplex_point2=np.array(simplex.nodes[1].coordinates)[self._variable_axes], simplex_point3=np.array(simplex.nodes[2].coordinates)[self._variable_axes])
        result[input_points_inside_simplex_indices] = simplex.evaluate_surface(function_axis=self._function_value_axis, variables_to_evaluate=variable_array[input_points_inside_simplex_indices])
    if self._fill_convex_function is not None:
        nan_value_indices = np.argwhere(np.isnan(result))[:, 0]
        if len(nan_value_indices) > 0:
            result[nan_value_indices] = self._fill_convex_function(variable_array[nan_value_indices, :])
    return result


@target("libecalc.domain.process.compressor.core.train.base.calculate_pressure_ratio_per_stage", props=["C24"])
def f_calculate_pressure_ratio_per_stage(suction_pressure, discharge_pressure, n_stages):
    if n_stages < 1:
        raise ValueError()
    pressure_ratios = discharge_pressure / suction_pressure
    return pressure_ratios ** (1.0 / n_stages)


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.__init__", props=["C24"])
def CompressorTrainModel_init(self, energy_usage_adjustment_constant, energy_usage_adjustment_factor, stages, fluid_service, maximum_power=None, pressure_control=None, maximum_discharge_pressure=None, calculate_max_rate=False, stage_number_interstage_pressure=None):
    self.energy_usage_adjustment_constant = energy_usage_adjustment_constant
    self.energy_usage_adjustment_factor = energy_usage_adjustment_factor
    self.stages = stages
    self._fluid_service = fluid_service
    self.maximum_power = maximum_power
    self._maximum_discharge_pressure = maximum_discharge_pressure
    self._pressure_control = pressure_control
    self.calculate_max_rate = calculate_max_rate
    self.stage_number_interstage_pressure = stage_number_interstage_pressure
    self.ports = [StreamPort(is_inlet_port=True, connected_to_stage_no=0)]
    self.inlet_port_connected_to_stage = {key: [] for key in range(len(self.stages))}
    self.outlet_port_connected_to_stage = {key: [] for key in range(len(self.stages))}
    self._make_ports_from_splitters_and_mixers()


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.number_of_compressor_stages", props=["C24"])
def CompressorTrainModel_number_of_compressor_stages(self):
    return len(self.stages)


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.minimum_speed", props=["C24"])
def CompressorTrainModel_minimum_speed(self):
    return max([stage.compressor.compressor_chart.minimum_speed for stage in self.stages])


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.maximum_speed", props=["C24"])
def CompressorTrainModel_maximum_speed(self):
    return min([stage.compressor.compressor_chart.maximum_speed for stage in self.stages])


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.pressure_control", props=["C24"])
def CompressorTrainModel_pressure_control(self):
    return self._pressure_control


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.maximum_discharge_pressure", props=["C24"])
def CompressorTrainModel_maximum_discharge_pressure(self):
    return self._maximum_discharge_pressure


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.fluid_model", props=["C24"])
def CompressorTrainModel_fluid_model(self):
    fm = self._fluid_model[0] if isinstance(self._fluid_model, list) else self._fluid_model
    return fm


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.get_consumption_type", props=["C24"])
def CompressorTrainModel_get_consumption_type(self):
    return ConsumptionType.ELECTRICITY


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel._make_ports_from_splitters_and_mixers", props=["C24"])
def CompressorTrainModel_make_ports_from_splitters_and_mixers(self):
    for i, stage in enumerate(self.stages):
        if stage.splitter:
            for _ in range(stage.splitter.number_of_outputs - 1):
                self.ports.append(StreamPort(is_inlet_port=False, connected_to_stage_no=i))
        if stage.mixer:
            for _ in range(stage.mixer.number_of_inputs - 1):
                self.ports.append(StreamPort(is_inlet_port=True, connected_to_stage_no=i))
    for i, port in enumerate(self.ports):
        if port.is_inlet_port:
            self.inlet_port_connected_to_stage[port.connected_to_stage_no].append(i)
        else:
            self.outlet_port_connected_to_stage[port.connected_to_stage_no].append(i)


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.set_evaluation_input", props=["C24"])
def CompressorTrainModel_set_evaluation_input(self, rate, fluid_model, suction_pressure, discharge_pressure, intermediate_pressure=None):
    if suction_pressure is None:
        raise EcalcValidationException('Suction pressure is required for model')
    if discharge_pressure is None:
        raise EcalcValidationException('Discharge pressure is required for model')
    has_interstage_pressure = any((stage.interstage_pressure_control is not None for stage in self.stages))
    if has_interstage_pressure and intermediate_pressure is None:
        raise EcalcValidationException('Interstage control pressure is required for model')
    if not has_interstage_pressure and intermediate_pressure is not None:
        raise EcalcValidationException('Model is not set up to receive interstage pressure')
    self._rate = rate
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure
    self._intermediate_pressure = intermediate_pressure
    self._fluid_model = fluid_model if isinstance(fluid_model, list) else [fluid_model]


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.reset_rate_modifiers", props=["C24"])
def CompressorTrainModel_reset_rate_modifiers(self):
    for stage in self.stages:
        stage.rate_modifier.reset()


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.evaluate", props=["C24"])
def CompressorTrainModel_evaluate(self):
    train_results = []
    for rate_value, suction_pressure_value, intermediate_pressure_value, discharge_pressure_value in zip(np.transpose(self._rate), self._suction_pressure, self._intermediate_pressure if self._intermediate_pressure is not None else [None] * len(self._suction_pressure), self._discharge_pressure):
        self.reset_rate_modifiers()
        if isinstance(rate_value, np.ndarray):
            rate_value = list(rate_value)
            constraints_rates = rate_value
        else:
            constraints_rates = [rate_value]
        evaluation_constraints = CompressorTrainEvaluationInput(suction_pressure=suction_pressure_value, discharge_pressure=discharge_pressure_value, interstage_pressure=intermediate_pressure_value, rates=constraints_rates)
        train_results.append(self.evaluate_given_constraints(constraints=evaluation_constraints))
    power_mw = np.array([result.power_megawatt for result in train_results])
    power_mw_adjusted = np.where(power_mw > 0, power_mw * self.energy_usage_adjustment_factor + self.energy_usage_adjustment_constant, power_mw)
    max_standard_rate = np.full_like(self._suction_pressure, fill_value=INVALID_MAX_RATE, dtype=float)
    if self.calculate_max_rate:
        max_standard_rate = self.get_max_standard_rate(suction_pressures=self._suction_pressure, discharge_pressures=self._discharge_pressure)
    inlet_stream_condition, outlet_stream_condition, stage_results = CompressorTrainResultSingleTimeStep.from_result_list_to_dto(result_list=train_results, compressor_charts=[stage.compressor.compressor_chart for stage in self.stages])
    return CompressorTrainResult(inlet_stream_condition=inlet_stream_condition, outlet_stream_condition=outlet_stream_condition, energy_usage=list(power_mw_adjusted), energy_usage_unit=Unit.MEGA_WATT, power=list(power_mw_adjusted), power_unit=Unit.MEGA_WATT, rate_sm3_day=cast(list, self._rate.tolist()), max_standard_rate=cast(list, max_standard_rate.tolist()), stage_results=stage_results, failure_status=[t.failure_status for t in train_results], turbine_result=None)


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.train_inlet_stream", props=["C24"])
def CompressorTrainModel_train_inlet_stream(self, pressure, temperature, rate):
    return self._fluid_service.create_stream_from_standard_rate(fluid_model=self.fluid_model, pressure_bara=pressure, temperature_kelvin=temperature, standard_rate_m3_per_day=rate)


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.calculate_pressure_ratios_per_stage", props=["C24"])
def CompressorTrainModel_calculate_pressure_ratios_per_stage(self, suction_pressure, discharge_pressure):
    return calculate_pressure_ratio_per_stage(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, n_stages=len(self.stages))


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.check_target_pressures", props=["C24"])
def CompressorTrainModel_check_target_pressures(self, constraints, results):
    if isinstance(results, list):
        train_suction_pressure = results[0].inlet_pressure
        calculated_discharge_pressure = results[-1].discharge_pressure
        calculated_intermediate_pressure = None
        stage_suction_pressure = results[0].inlet_pressure
    else:
        train_suction_pressure = results.suction_pressure
        calculated_discharge_pressure = results.discharge_pressure
        stage_suction_pressure = results.stage_results[0].inlet_stream.pressure_bara
        if constraints.rates is not None:
            calculated_intermediate_pressure = results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure if self.stage_number_interstage_pressure is not None else None
        else:
            calculated_intermediate_pressure = None
    if stage_suction_pressure is not None:
        if stage_suction_pressure / train_suction_pressure - 1 > PRESSURE_CALCULATION_TOLERANCE:
            return TargetPressureStatus.ABOVE_TARGET_SUCTION_PRESSURE
    if constraints.discharge_pressure is not None:
        if calculated_discharge_pressure / constraints.discharge_pressure - 1 > PRESSURE_CALCULATION_TOLERANCE:
            return TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE
        if constraints.discharge_pressure / calculated_discharge_pressure - 1 > PRESSURE_CALCULATION_TOLERANCE:
            return TargetPressureStatus.BELOW_TARGET_DISCHARGE_PRESSURE
    if constraints.interstage_pressure is not None and calculated_intermediate_pressure is not None:
        if calculated_intermediate_pressure / constraints.interstage_pressure - 1 > PRESSURE_CALCULATION_TOLERANCE:
            return TargetPressureStatus.ABOVE_TARGET_INTERMEDIATE_PRESSURE
        if constraints.interstage_pressure / calculated_intermediate_pressure - 1 > PRESSURE_CALCULATION_TOLERANCE:
            return TargetPressureStatus.BELOW_TARGET_INTERMEDIATE_PRESSURE
    return TargetPressureStatus.TARGET_PRESSURES_MET


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.get_max_standard_rate", props=["C24"])
def CompressorTrainModel_get_max_standard_rate(self, suction_pressures, discharge_pressures, fluid_model=None):
    EPSILON = 1e-05
    if fluid_model is not None:
        self._fluid_model = [fluid_model]
    if len(self.ports) > 1:
        raise EcalcValidationException('Calculation of max standard rate is not well defined for compressor trains with more than one port.')
    max_standard_rate = np.full_like(suction_pressures, fill_value=INVALID_MAX_RATE, dtype=float)
    for i, (suction_pressure_value, discharge_pressure_value) in enumerate(zip(suction_pressures, discharge_pressures)):
        if suction_pressure_value <= 0 or discharge_pressure_value <= 0:
            max_standard_rate[i] = 0.0
            continue
        constraints = CompressorTrainEvaluationInput(suction_pressure=suction_pressure_value, discharge_pressure=discharge_pressure_value, rates=[EPSILON])
        try:
            max_standard_rate[i] = self._get_max_std_rate_single_timestep(constraints=constraints)
        except EcalcError as e:
            max_standard_rate[i] = float('nan')
    return max_standard_rate


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.get_requested_inlet_pressure", props=["C24"])
def CompressorTrainModel_get_requested_inlet_pressure(self):
    return self._suction_pressure


@target("libecalc.domain.process.compressor.core.train.base.CompressorTrainModel.get_requested_outlet_pressure", props=["C24"])
def CompressorTrainModel_get_requested_outlet_pressure(self):
    return self._discharge_pressure


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.__init__", props=["C24"])
def CompressorTrainCommonShaft_init(self, energy_usage_adjustment_constant, energy_usage_adjustment_factor, stages, fluid_service, shaft, pressure_control=None, calculate_max_rate=False, maximum_power=None, maximum_discharge_pressure=None, stage_number_interstage_pressure=None):
    self.shaft = shaft
    super().__init__(energy_usage_adjustment_constant=energy_usage_adjustment_constant, energy_usage_adjustment_factor=energy_usage_adjustment_factor, stages=stages, fluid_service=fluid_service, maximum_power=maximum_power, pressure_control=pressure_control, calculate_max_rate=calculate_max_rate, maximum_discharge_pressure=maximum_discharge_pressure, stage_number_interstage_pressure=stage_number_interstage_pressure)
    self._validate_maximum_discharge_pressure()
    self._validate_stages(stages)
    self._validate_shaft()


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.pressure_control_first_part", props=["C24"])
def CompressorTrainCommonShaft_pressure_control_first_part(self):
    return self.stages[self.stage_number_interstage_pressure].interstage_pressure_control.upstream_pressure_control if self.stage_number_interstage_pressure else None


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.pressure_control_last_part", props=["C24"])
def CompressorTrainCommonShaft_pressure_control_last_part(self):
    return self.stages[self.stage_number_interstage_pressure].interstage_pressure_control.downstream_pressure_control if self.stage_number_interstage_pressure else None


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.is_variable_speed", props=["C24"])
def CompressorTrainCommonShaft_is_variable_speed(self):
    return all((stage.compressor.compressor_chart.is_variable_speed for stage in self.stages))


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._validate_positive_ingoing_rates", props=["C24"])
def CompressorTrainCommonShaft_validate_positive_ingoing_rates(self, constraints):
    if not constraints.rates or not any((rate > 0 for rate, port in zip(constraints.rates, self.ports) if port.is_inlet_port)):
        return False
    return True


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._validate_nonnegative_stage_rates", props=["C24"])
def CompressorTrainCommonShaft_validate_nonnegative_stage_rates(self, constraints):
    if not constraints.rates:
        raise ValueError()
    for stage_number in range(len(self.stages)):
        net_rate = sum((constraints.rates[i] if port.is_inlet_port else -constraints.rates[i] for i, port in enumerate(self.ports) if port.connected_to_stage_no <= stage_number))
        if net_rate < 0:
            raise ValueError()


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.evaluate_given_constraints", props=["C24"], modular=True)
def CompressorTrainCommonShaft_evaluate_given_constraints(self, constraints, fixed_speed=None):
    self.reset_rate_modifiers()
    self._validate_nonnegative_stage_rates(constraints)
    if self._validate_positive_ingoing_rates(constraints):
        if constraints.interstage_pressure is not None:
            if fixed_speed is not None:
                raise ValueError()
            self._check_intermediate_pressure_stage_number_is_valid(_stage_number_intermediate_pressure=self.stage_number_interstage_pressure, number_of_stages=len(self.stages))
            return self.find_and_calculate_for_compressor_train_with_two_pressure_requirements(stage_number_for_intermediate_pressure_target=self.stage_number_interstage_pressure, constraints=constraints, pressure_control_first_part=self.pressure_control_first_part, pressure_control_last_part=self.pressure_control_last_part)
        if fixed_speed is None:
            self.find_fixed_shaft_speed_given_constraints(constraints=constraints)
        train_result = self.calculate_compressor_train(constraints=constraints)
        if train_result.target_pressure_status == TargetPressureStatus.TARGET_PRESSURES_MET:
            return train_result
        elif train_result.target_pressure_status is TargetPressureStatus.BELOW_TARGET_DISCHARGE_PRESSURE:
            return train_result
        elif self.pressure_control is None:
            return train_result
        else:
            train_result = self.evaluate_with_pressure_control_given_constraints(constraints=constraints)
        return train_result
    else:
        return CompressorTrainResultSingleTimeStep.create_empty(number_of_stages=len(self.stages))


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.calculate_compressor_train", props=["C24"])
def CompressorTrainCommonShaft_calculate_compressor_train(self, constraints):
    fluid_streams = []
    for i, port in enumerate(self.ports):
        if port.is_inlet_port:
            stream_fluid_model = self._fluid_model[i]
            if stream_fluid_model is not None:
                fluid_streams.append(self._fluid_service.create_stream_from_standard_rate(fluid_model=stream_fluid_model, pressure_bara=constraints.suction_pressure, temperature_kelvin=self.stages[0].inlet_temperature_kelvin, standard_rate_m3_per_day=constraints.rates[i]))
    previous_stage_outlet_stream = train_inlet_stream = fluid_streams[0]
    inlet_stream_counter = 1
    stage_results = []
    for stage_number, stage in enumerate(self.stages):
        stage_inlet_stream = previous_stage_outlet_stream
        rates_out_of_splitter = [constraints.rates[stream_number] for stream_number in self.outlet_port_connected_to_stage.get(stage_number, [])]
        streams_in_to_mixer = []
        for stream_number in self.inlet_port_connected_to_stage.get(stage_number, []):
            if stream_number > 0:
                if inlet_stream_counter < len(fluid_streams):
                    new_fluid = stage.fluid_service.create_fluid(fluid_streams[inlet_stream_counter].fluid_model, stage_inlet_stream.pressure_bara, stage_inlet_stream.temperature_kelvin)
                    streams_in_to_mixer.append(fluid_streams[inlet_stream_counter].with_new_fluid(new_fluid))
                    inlet_stream_counter += 1
        stage_results.append(stage.evaluate(inlet_stream_stage=stage_inlet_stream, rates_out_of_splitter=rates_out_of_splitter, streams_in_to_mixer=streams_in_to_mixer))
        previous_stage_outlet_stream = stage_results[-1].outlet_stream
    target_pressure_status = self.check_target_pressures(constraints=constraints, results=stage_results)
    return CompressorTrainResultSingleTimeStep(inlet_stream=train_inlet_stream, outlet_stream=previous_stage_outlet_stream, stage_results=stage_results, speed=self.shaft.get_speed(), above_maximum_power=sum((stage_result.power_megawatt for stage_result in stage_results)) > self.maximum_power if self.maximum_power else False, target_pressure_status=target_pressure_status)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._validate_stages", props=["C24"])
def CompressorTrainCommonShaft_validate_stages(self, stages):
    min_speed_per_stage = []
    max_speed_per_stage = []
    for stage in stages:
        max_speed_per_stage.append(stage.compressor.compressor_chart.maximum_speed)
        min_speed_per_stage.append(stage.compressor.compressor_chart.minimum_speed)
    if max(min_speed_per_stage) > min(max_speed_per_stage):
        msg = 'Variable speed compressors in compressor train have incompatible compressor charts.'
        f" Stage {min_speed_per_stage.index(max(min_speed_per_stage)) + 1}'s minimum speed is higher"
        f' than max speed of stage {max_speed_per_stage.index(min(max_speed_per_stage)) + 1}'
        raise ProcessChartTypeValidationException(message=str(msg))


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._get_max_std_rate_single_timestep", props=["C24"], modular=True)
def CompressorTrainCommonShaft_get_max_std_rate_single_timestep(self, constraints, allow_asv=False):
    EPSILON = 1e-05
    fluid_model = self.fluid_model
    inlet_density = self._fluid_service.create_fluid(fluid_model=fluid_model, pressure_bara=constraints.suction_pressure, temperature_kelvin=self.stages[0].inlet_temperature_kelvin).density

    def _calculate_train_result(mass_rate, speed):
        self.shaft.set_speed(speed)
        return self.calculate_compressor_train(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, mass_rate)))

    def _calculate_train_result_given_ps_pd(mass_rate):
        return self.evaluate_given_constraints(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, mass_rate)))

    def _calculate_train_result_given_speed_at_stone_wall(speed):
        _max_valid_mass_rate_at_given_speed = maximize_x_given_boolean_condition_function(x_min=self.stages[0].compressor.compressor_chart.minimum_rate_as_function_of_speed(speed) * inlet_density, x_max=self.stages[0].compressor.compressor_chart.maximum_rate_as_function_of_speed(speed) * inlet_density, bool_func=lambda x: _calculate_train_result(mass_rate=x, speed=speed).within_capacity, convergence_tolerance=0.001, maximum_number_of_iterations=20)
        return self.calculate_compressor_train(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, _max_valid_mass_rate_at_given_speed)))
    _calculate_train_result_at_max_speed_given_mass_rate = partial(_calculate_train_result, speed=self.maximum_speed)
    _calculate_train_result_at_min_speed_given_mass_rate = partial(_calculate_train_result, speed=self.minimum_speed)
    min_mass_rate_at_max_speed_first_stage = self.stages[0].compressor.compressor_chart.maximum_speed_curve.minimum_rate * inlet_density
    max_mass_rate_at_max_speed_first_stage = self.stages[0].compressor.compressor_chart.maximum_speed_curve.maximum_rate * inlet_density
    max_mass_rate_at_min_speed_first_stage = self.stages[0].compressor.compressor_chart.maximum_rate_as_function_of_speed(self.stages[0].compressor.compressor_chart.minimum_speed) * inlet_density
    result_min_mass_rate_at_max_speed_first_stage = _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=min_mass_rate_at_max_speed_first_stage)
    result_max_mass_rate_at_max_speed_first_stage = _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=max_mass_rate_at_max_speed_first_stage)
    result_max_mass_rate_at_min_speed_first_stage = _calculate_train_result_at_min_speed_given_mass_rate(mass_rate=max_mass_rate_at_min_speed_first_stage)
    if not result_min_mass_rate_at_max_speed_first_stage.within_capacity:
        if allow_asv:
            min_mass_rate_at_max_speed = EPSILON
            result_min_mass_rate_at_max_speed = _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=min_mass_rate_at_max_speed)
            if not result_min_mass_rate_at_max_speed.within_capacity:
                return 0.0
            max_mass_rate_at_max_speed = maximize_x_given_boolean_condition_function(x_min=EPSILON, x_max=min_mass_rate_at_max_speed_first_stage, bool_func=lambda x: _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=x).within_capacity, convergence_tolerance=0.001, maximum_number_of_iterations=20)
            result_max_mass_rate_at_max_speed = _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=max_mass_rate_at_max_speed)
        else:
            return 0.0
    else:
        min_mass_rate_at_max_speed = min_mass_rate_at_max_speed_first_stage
        result_min_mass_rate_at_max_speed = result_min_mass_rate_at_max_speed_first_stage
        if not result_max_mass_rate_at_max_speed_first_stage.within_capacity:
            max_mass_rate_at_max_speed = maximize_x_given_boolean_condition_function(x_min=min_mass_rate_at_max_speed, x_max=max_mass_rate_at_max_speed_first_stage, bool_func=lambda x: _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=x).within_capacity, convergence_tolerance=0.001, maximum_number_of_iterations=20)
            result_max_mass_rate_at_max_speed = _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=max_mass_rate_at_max_speed)
        else:
            max_mass_rate_at_max_speed = max_mass_rate_at_max_speed_first_stage
            result_max_mass_rate_at_max_speed = result_max_mass_rate_at_max_speed_first_stage
    if constraints.discharge_pressure is not None and result_min_mass_rate_at_max_speed.discharge_pressure < constraints.discharge_pressure:
        return 0.0
    elif constraints.discharge_pressure is not None and constraints.discharge_pressure >= result_max_mass_rate_at_max_speed.discharge_pressure:
        target_discharge_pressure = constraints.discharge_pressure
        result_mass_rate = find_root(lower_bound=min_mass_rate_at_max_speed, upper_bound=max_mass_rate_at_max_speed, func=lambda x: _calculate_train_result_at_max_speed_given_mass_rate(mass_rate=x).discharge_pressure - target_discharge_pressure, relative_convergence_tolerance=0.001, maximum_number_of_iterations=20)
        rate_to_return = result_mass_rate * (1 - RATE_CALCULATION_TOLERANCE)
    elif self.pressure_control == FixedSpeedPressureControl.DOWNSTREAM_CHOKE:
        rate_to_return = max_mass_rate_at_max_speed * (1 - RATE_CALCULATION_TOLERANCE)
    elif self.pressure_control == FixedSpeedPressureControl.UPSTREAM_CHOKE:
        rate_to_return = maximize_x_given_boolean_condition_function(x_min=0, x_max=max_mass_rate_at_max_speed_first_stage, bool_func=lambda x: _calculate_train_result_given_ps_pd(mass_rate=x).within_capacity, convergence_tolerance=0.001, maximum_number_of_iterations=20)
    else:
        if not result_max_mass_rate_at_min_speed_first_stage.within_capacity:
            max_mass_rate_at_min_speed = maximize_x_given_boolean_condition_function(x_min=EPSILON, x_max=max_mass_rate_at_min_speed_first_stage, bool_func=lambda x: _calculate_train_result_at_min_speed_given_mass_rate(mass_rate=x).within_capacity)
            result_max_mass_rate_at_min_speed = _calculate_train_result_at_min_speed_given_mass_rate(mass_rate=max_mass_rate_at_min_speed)
        else:
            result_max_mass_rate_at_min_speed = result_max_mass_rate_at_min_speed_first_stage
        if constraints.discharge_pressure is not None and result_max_mass_rate_at_max_speed.discharge_pressure >= constraints.discharge_pressure >= result_max_mass_rate_at_min_speed.discharge_pressure:
            target_discharge_pressure = constraints.discharge_pressure
            result_speed = find_root(lower_bound=self.minimum_speed, upper_bound=self.maximum_speed, func=lambda x: _calculate_train_result_given_speed_at_stone_wall(speed=x).discharge_pressure - target_discharge_pressure)
            self.shaft.set_speed(result_speed)
            compressor_train_result = _calculate_train_result_given_speed_at_stone_wall(speed=result_speed)
            rate_to_return = compressor_train_result.mass_rate_kg_per_hour * (1 - RATE_CALCULATION_TOLERANCE)
        elif constraints.discharge_pressure is not None and result_max_mass_rate_at_min_speed.discharge_pressure > constraints.discharge_pressure:
            return 0.0
        else:
            msg = 'You should not end up here. Please contact eCalc support.'
            raise IllegalStateException(msg)
    maximum_power = self.maximum_power
    if not maximum_power:
        result = self._fluid_service.mass_rate_to_standard_rate(fluid_model, rate_to_return)
        return float(result)
    elif self.evaluate_given_constraints(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, rate_to_return))).power_megawatt > maximum_power:
        result_with_minimum_rate = self.evaluate_given_constraints(constraints=constraints.create_conditions_with_new_input(new_rate=EPSILON))
        if result_with_minimum_rate.power_megawatt > maximum_power:
            return 0.0
        else:
            result = self._fluid_service.mass_rate_to_standard_rate(fluid_model, find_root(lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour, upper_bound=rate_to_return, func=lambda x: self.evaluate_given_constraints(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, x))).power_megawatt - maximum_power * (1 - POWER_CALCULATION_TOLERANCE), relative_convergence_tolerance=0.001, maximum_number_of_iterations=20))
            return float(result)
    else:
        result = self._fluid_service.mass_rate_to_standard_rate(fluid_model, rate_to_return)
        return float(result)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._validate_maximum_discharge_pressure", props=["C24"])
def CompressorTrainCommonShaft_validate_maximum_discharge_pressure(self):
    if self.maximum_discharge_pressure is not None and self.maximum_discharge_pressure < 0:
        msg = f'maximum_discharge_pressure must be greater than or equal to 0. Invalid value: {self.maximum_discharge_pressure}'
        raise ProcessDischargePressureValidationException(message=str(msg))


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._validate_shaft", props=["C24"])
def CompressorTrainCommonShaft_validate_shaft(self):
    if not isinstance(self.shaft, Shaft):
        raise ValueError()
    if self.is_variable_speed and isinstance(self.shaft, SingleSpeedShaft):
        raise ValueError()
    elif not self.is_variable_speed:
        if isinstance(self.shaft, VariableSpeedShaft):
            raise ValueError()
        self.shaft.set_speed(self.minimum_speed)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.evaluate_with_pressure_control_given_constraints", props=["C24"], modular=True)
def CompressorTrainCommonShaft_evaluate_with_pressure_control_given_constraints(self, constraints):
    if not self.shaft.speed_is_defined:
        raise ValueError()
    if self.pressure_control == FixedSpeedPressureControl.DOWNSTREAM_CHOKE:
        train_result = self._evaluate_train_with_downstream_choking(constraints=constraints)
    elif self.pressure_control == FixedSpeedPressureControl.UPSTREAM_CHOKE:
        train_result = self._evaluate_train_with_upstream_choking(constraints=constraints)
    elif self.pressure_control == FixedSpeedPressureControl.INDIVIDUAL_ASV_RATE:
        train_result = self._evaluate_train_with_individual_asv_rate(constraints=constraints)
    elif self.pressure_control == FixedSpeedPressureControl.INDIVIDUAL_ASV_PRESSURE:
        train_result = self._evaluate_train_with_individual_asv_pressure(constraints=constraints)
    elif self.pressure_control == FixedSpeedPressureControl.COMMON_ASV:
        train_result = self._evaluate_train_with_common_asv(constraints=constraints)
    else:
        raise ValueError()
    return train_result


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._evaluate_train_with_downstream_choking", props=["C24"], modular=True)
def CompressorTrainCommonShaft_evaluate_train_with_downstream_choking(self, constraints):
    train_result = self.calculate_compressor_train(constraints=constraints)
    if self.maximum_discharge_pressure is not None:
        if train_result.discharge_pressure * (1 + PRESSURE_CALCULATION_TOLERANCE) > self.maximum_discharge_pressure:
            new_train_result = self._evaluate_train_with_upstream_choking(constraints=constraints.create_conditions_with_new_input(new_discharge_pressure=self.maximum_discharge_pressure))
            train_result.stage_results = new_train_result.stage_results
            train_result.outlet_stream = new_train_result.outlet_stream
            train_result.target_pressure_status = self.check_target_pressures(constraints=constraints, results=train_result)
    if train_result.target_pressure_status == TargetPressureStatus.ABOVE_TARGET_DISCHARGE_PRESSURE:
        new_fluid = self.stages[-1].fluid_service.create_fluid(train_result.outlet_stream.fluid_model, constraints.discharge_pressure, train_result.outlet_stream.temperature_kelvin)
        train_result.outlet_stream = train_result.outlet_stream.with_new_fluid(new_fluid)
        train_result.target_pressure_status = self.check_target_pressures(constraints=constraints, results=train_result)
    return train_result


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._evaluate_train_with_upstream_choking", props=["C24"], modular=True)
def CompressorTrainCommonShaft_evaluate_train_with_upstream_choking(self, constraints):
    EPSILON = 1e-05
    train_inlet_stream = self.train_inlet_stream(pressure=constraints.suction_pressure, temperature=self.stages[0].inlet_temperature_kelvin, rate=constraints.inlet_rate)

    def _calculate_train_result_given_inlet_pressure(inlet_pressure):
        return self.calculate_compressor_train(constraints=constraints.create_conditions_with_new_input(new_suction_pressure=inlet_pressure))
    target_discharge_pressure = constraints.discharge_pressure
    result_inlet_pressure = find_root(lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage, upper_bound=target_discharge_pressure, func=lambda x: _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure - target_discharge_pressure)
    train_result = _calculate_train_result_given_inlet_pressure(inlet_pressure=result_inlet_pressure)
    train_result.inlet_stream = train_inlet_stream
    train_result.target_pressure_status = self.check_target_pressures(constraints=constraints, results=train_result)
    return train_result


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._evaluate_train_with_individual_asv_rate", props=["C24"])
def CompressorTrainCommonShaft_evaluate_train_with_individual_asv_rate(self, constraints):

    def _calculate_train_result_given_asv_rate_margin(asv_rate_fraction):
        for stage in self.stages:
            stage.rate_modifier.fraction_of_available_capacity_to_recirculate = asv_rate_fraction
        return self.calculate_compressor_train(constraints=constraints)
    minimum_asv_fraction = 0.0
    maximum_asv_fraction = 1.0
    train_result_for_minimum_asv_rate_fraction = _calculate_train_result_given_asv_rate_margin(asv_rate_fraction=minimum_asv_fraction)
    if train_result_for_minimum_asv_rate_fraction.chart_area_status == ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE or (constraints.discharge_pressure is not None and constraints.discharge_pressure > train_result_for_minimum_asv_rate_fraction.discharge_pressure):
        return train_result_for_minimum_asv_rate_fraction
    train_result_for_maximum_asv_rate_fraction = _calculate_train_result_given_asv_rate_margin(asv_rate_fraction=maximum_asv_fraction)
    if constraints.discharge_pressure is not None and constraints.discharge_pressure < train_result_for_maximum_asv_rate_fraction.discharge_pressure:
        return train_result_for_maximum_asv_rate_fraction
    target_discharge_pressure = constraints.discharge_pressure
    result_asv_rate_margin = find_root(lower_bound=0.0, upper_bound=1.0, func=lambda x: _calculate_train_result_given_asv_rate_margin(asv_rate_fraction=x).discharge_pressure - target_discharge_pressure)
    return _calculate_train_result_given_asv_rate_margin(asv_rate_fraction=result_asv_rate_margin)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._evaluate_train_with_individual_asv_pressure", props=["C24"])
def CompressorTrainCommonShaft_evaluate_train_with_individual_asv_pressure(self, constraints):
    fluid_model = self.fluid_model
    inlet_stream_train = self._fluid_service.create_stream_from_standard_rate(fluid_model=fluid_model, pressure_bara=constraints.suction_pressure, temperature_kelvin=self.stages[0].inlet_temperature_kelvin, standard_rate_m3_per_day=constraints.inlet_rate)
    pressure_ratio_per_stage = self.calculate_pressure_ratios_per_stage(suction_pressure=constraints.suction_pressure, discharge_pressure=constraints.discharge_pressure)
    inlet_stream_stage = inlet_stream_train
    stage_results = []
    for stage in self.stages:
        outlet_pressure_for_stage = inlet_stream_stage.pressure_bara * pressure_ratio_per_stage
        stage_result = stage.evaluate_given_speed_and_target_discharge_pressure(target_discharge_pressure=outlet_pressure_for_stage, inlet_stream_stage=inlet_stream_stage)
        inlet_stream_stage = stage_result.outlet_stream
        stage_results.append(stage_result)
    target_pressure_status = self.check_target_pressures(constraints=constraints, results=stage_results)
    return CompressorTrainResultSingleTimeStep(inlet_stream=inlet_stream_train, outlet_stream=stage_result.outlet_stream, speed=self.shaft.get_speed(), stage_results=stage_results, target_pressure_status=target_pressure_status)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._evaluate_train_with_common_asv", props=["C24"], modular=True)
def CompressorTrainCommonShaft_evaluate_train_with_common_asv(self, constraints):
    EPSILON = 1e-05
    fluid_model = self.fluid_model
    minimum_mass_rate_kg_per_hour = self._fluid_service.standard_rate_to_mass_rate(fluid_model=fluid_model, standard_rate_m3_per_day=constraints.inlet_rate)
    density_train_inlet_fluid = self._fluid_service.create_fluid(fluid_model=fluid_model, pressure_bara=constraints.suction_pressure, temperature_kelvin=self.stages[0].inlet_temperature_kelvin).density

    def _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour):
        self.reset_rate_modifiers()
        return self.calculate_compressor_train(constraints=constraints.create_conditions_with_new_input(new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, mass_rate_kg_per_hour)))

    def _calculate_train_result_given_additional_mass_rate(additional_mass_rate_kg_per_hour):
        for stage in self.stages:
            stage.rate_modifier.mass_rate_to_recirculate = additional_mass_rate_kg_per_hour
        return self.calculate_compressor_train(constraints=constraints)
    current_speed = self.shaft.get_speed()
    minimum_mass_rate = max(minimum_mass_rate_kg_per_hour, float(self.stages[0].compressor.compressor_chart.minimum_rate_as_function_of_speed(current_speed)) * density_train_inlet_fluid)
    maximum_mass_rate = float(self.stages[0].compressor.compressor_chart.maximum_rate_as_function_of_speed(current_speed)) * density_train_inlet_fluid * (1 - EPSILON)
    if minimum_mass_rate_kg_per_hour > maximum_mass_rate:
        return _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate_kg_per_hour)
    train_result_for_minimum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=float(minimum_mass_rate))
    train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=float(maximum_mass_rate))
    if train_result_for_minimum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
        if not train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
            maximum_mass_rate = maximize_x_given_boolean_condition_function(x_min=0.0, x_max=maximum_mass_rate, bool_func=lambda x: _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x).mass_rate_asv_corrected_is_constant_for_stages, convergence_tolerance=0.001, maximum_number_of_iterations=20)
            train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=maximum_mass_rate)
    elif train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
        minimum_mass_rate = -maximize_x_given_boolean_condition_function(x_min=-maximum_mass_rate, x_max=-minimum_mass_rate, bool_func=lambda x: _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x).mass_rate_asv_corrected_is_constant_for_stages, convergence_tolerance=0.001, maximum_number_of_iterations=20)
        train_result_for_minimum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate)
    else:
        inc = 0.1
        train_result_for_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate))
        while not train_result_for_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
            inc += 0.1
            if inc >= 1:
                return _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate_kg_per_hour)
            train_result_for_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate))
        minimum_mass_rate = -maximize_x_given_boolean_condition_function(x_min=-(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)), x_max=-minimum_mass_rate, bool_func=lambda x: _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x).mass_rate_asv_corrected_is_constant_for_stages, convergence_tolerance=0.001, maximum_number_of_iterations=20)
        maximum_mass_rate = maximize_x_given_boolean_condition_function(x_min=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate), x_max=maximum_mass_rate, bool_func=lambda x: _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x).mass_rate_asv_corrected_is_constant_for_stages, convergence_tolerance=0.001, maximum_number_of_iterations=20)
        train_result_for_minimum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=minimum_mass_rate)
        train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=maximum_mass_rate)
    if constraints.discharge_pressure is not None and constraints.discharge_pressure > train_result_for_minimum_mass_rate.discharge_pressure:
        return train_result_for_minimum_mass_rate
    if constraints.discharge_pressure is not None and constraints.discharge_pressure < train_result_for_maximum_mass_rate.discharge_pressure:
        return train_result_for_maximum_mass_rate
    target_discharge_pressure = constraints.discharge_pressure
    result_mass_rate = find_root(lower_bound=minimum_mass_rate, upper_bound=maximum_mass_rate, func=lambda x: _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x).discharge_pressure - target_discharge_pressure)
    return _calculate_train_result_given_additional_mass_rate(additional_mass_rate_kg_per_hour=result_mass_rate - minimum_mass_rate_kg_per_hour)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.find_fixed_shaft_speed_given_constraints", props=["C24"])
def CompressorTrainCommonShaft_find_fixed_shaft_speed_given_constraints(self, constraints, lower_bound_for_speed=None, upper_bound_for_speed=None):
    minimum_speed = lower_bound_for_speed if lower_bound_for_speed and lower_bound_for_speed > self.minimum_speed else self.minimum_speed
    maximum_speed = upper_bound_for_speed if upper_bound_for_speed and upper_bound_for_speed < self.maximum_speed else self.maximum_speed

    def _calculate_compressor_train(_speed):
        self.shaft.set_speed(_speed)
        return self.calculate_compressor_train(constraints=constraints)
    train_result_for_maximum_speed = _calculate_compressor_train(_speed=maximum_speed)
    if not train_result_for_maximum_speed.within_capacity:
        self.shaft.set_speed(maximum_speed)
        return maximum_speed
    train_result_for_minimum_speed = _calculate_compressor_train(_speed=minimum_speed)
    if not train_result_for_minimum_speed.within_capacity:
        minimum_speed = -maximize_x_given_boolean_condition_function(x_min=-maximum_speed, x_max=-minimum_speed, bool_func=lambda x: _calculate_compressor_train(_speed=-x).within_capacity)
        train_result_for_minimum_speed = _calculate_compressor_train(_speed=minimum_speed)
    if constraints.discharge_pressure is not None and train_result_for_minimum_speed.discharge_pressure <= constraints.discharge_pressure <= train_result_for_maximum_speed.discharge_pressure:
        target_discharge_pressure = constraints.discharge_pressure
        speed = find_root(lower_bound=minimum_speed, upper_bound=maximum_speed, func=lambda x: _calculate_compressor_train(_speed=x).discharge_pressure - target_discharge_pressure)
        self.shaft.set_speed(speed)
        return speed
    if constraints.discharge_pressure is not None and constraints.discharge_pressure < train_result_for_minimum_speed.discharge_pressure:
        self.shaft.set_speed(minimum_speed)
        return minimum_speed
    self.shaft.set_speed(maximum_speed)
    return maximum_speed


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.split_train_on_stage_number", props=["C24"])
def CompressorTrainCommonShaft_split_train_on_stage_number(self, stage_number, pressure_control_first_part=None, pressure_control_last_part=None):
    fluid_model_first_part = [fluid_model for port, fluid_model in zip(self.ports, self._fluid_model) if port.connected_to_stage_no < stage_number]
    compressor_train_first_part = CompressorTrainCommonShaft(shaft=self.shaft, energy_usage_adjustment_constant=self.energy_usage_adjustment_constant, energy_usage_adjustment_factor=self.energy_usage_adjustment_factor, stages=self.stages[:stage_number], fluid_service=self._fluid_service, calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False, maximum_power=self.maximum_power, pressure_control=pressure_control_first_part, stage_number_interstage_pressure=self.stage_number_interstage_pressure)
    compressor_train_first_part._fluid_model = fluid_model_first_part
    fluid_model_last_part = [deepcopy(self._fluid_model[0])]
    fluid_model_last_part.extend([fluid_model for port, fluid_model in zip(self.ports, self._fluid_model) if port.connected_to_stage_no >= stage_number])
    compressor_train_last_part = CompressorTrainCommonShaft(energy_usage_adjustment_constant=self.energy_usage_adjustment_constant, energy_usage_adjustment_factor=self.energy_usage_adjustment_factor, stages=self.stages[stage_number:], fluid_service=self._fluid_service, shaft=self.shaft, calculate_max_rate=self.calculate_max_rate if self.calculate_max_rate is not None else False, maximum_power=self.maximum_power, pressure_control=pressure_control_last_part, stage_number_interstage_pressure=self.stage_number_interstage_pressure)
    compressor_train_last_part._fluid_model = fluid_model_last_part
    return (compressor_train_first_part, compressor_train_last_part)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.split_rates_on_stage_number", props=["C24"])
def CompressorTrainCommonShaft_split_rates_on_stage_number(self, rates_per_stream, stage_number):
    rates_first_part = [rates_per_stream[i] for i, port in enumerate(self.ports) if port.connected_to_stage_no < stage_number]
    rate_at_outlet_first_part = sum((rates_per_stream[i] if port.is_inlet_port else -rates_per_stream[i] for i, port in enumerate(self.ports) if port.connected_to_stage_no < stage_number))
    rates_last_part = [rate_at_outlet_first_part]
    for i, port in enumerate(self.ports):
        if port.connected_to_stage_no >= stage_number:
            rates_last_part.append(rates_per_stream[i])
    return (rates_first_part, rates_last_part)


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft.find_and_calculate_for_compressor_train_with_two_pressure_requirements", props=["C24"], modular=True)
def CompressorTrainCommonShaft_find_and_calculate_for_compressor_train_with_two_pressure_requirements(self, stage_number_for_intermediate_pressure_target, constraints, pressure_control_first_part, pressure_control_last_part):
    EPSILON = 1e-05
    compressor_train_first_part, compressor_train_last_part = self.split_train_on_stage_number(stage_number=stage_number_for_intermediate_pressure_target, pressure_control_first_part=pressure_control_first_part, pressure_control_last_part=pressure_control_last_part)
    std_rates_first_part, std_rates_last_part = self.split_rates_on_stage_number(rates_per_stream=constraints.rates, stage_number=stage_number_for_intermediate_pressure_target)
    constraints_first_part = CompressorTrainEvaluationInput(suction_pressure=constraints.suction_pressure, discharge_pressure=constraints.interstage_pressure, rates=std_rates_first_part)
    constraints_last_part = CompressorTrainEvaluationInput(suction_pressure=constraints.interstage_pressure, discharge_pressure=constraints.discharge_pressure, rates=std_rates_last_part)
    shaft_speed_first_part = compressor_train_first_part.find_fixed_shaft_speed_given_constraints(constraints=constraints_first_part, lower_bound_for_speed=self.minimum_speed, upper_bound_for_speed=self.maximum_speed)
    if math.isclose(shaft_speed_first_part, self.minimum_speed, rel_tol=EPSILON):
        compressor_train_results_first_part_with_optimal_speed_result = compressor_train_first_part.evaluate_with_pressure_control_given_constraints(constraints=constraints_first_part)
    else:
        compressor_train_results_first_part_with_optimal_speed_result = compressor_train_first_part.calculate_compressor_train(constraints=constraints_first_part)
    compressor_train_last_part._fluid_model[0] = FluidModel(composition=compressor_train_results_first_part_with_optimal_speed_result.stage_results[-1].outlet_stream.composition, eos_model=compressor_train_results_first_part_with_optimal_speed_result.stage_results[-1].outlet_stream.fluid_model.eos_model)
    shaft_speed_last_part = compressor_train_last_part.find_fixed_shaft_speed_given_constraints(constraints=constraints_last_part, lower_bound_for_speed=self.minimum_speed, upper_bound_for_speed=self.maximum_speed)
    if math.isclose(shaft_speed_last_part, self.minimum_speed, rel_tol=EPSILON):
        compressor_train_results_last_part_with_optimal_speed_result = compressor_train_last_part.evaluate_with_pressure_control_given_constraints(constraints=constraints_last_part)
    else:
        compressor_train_results_last_part_with_optimal_speed_result = compressor_train_last_part.calculate_compressor_train(constraints=constraints_last_part)
    if shaft_speed_first_part > shaft_speed_last_part:
        compressor_train_last_part.shaft.set_speed(shaft_speed_first_part)
        compressor_train_results_last_part_with_pressure_control = compressor_train_last_part.evaluate_with_pressure_control_given_constraints(constraints=constraints_last_part)
        compressor_train_results_to_return_first_part = compressor_train_results_first_part_with_optimal_speed_result
        compressor_train_results_to_return_last_part = compressor_train_results_last_part_with_pressure_control
    else:
        compressor_train_first_part.shaft.set_speed(shaft_speed_last_part)
        compressor_train_results_first_part_with_pressure_control = compressor_train_first_part.evaluate_with_pressure_control_given_constraints(constraints=constraints_first_part)
        compressor_train_results_to_return_first_part = compressor_train_results_first_part_with_pressure_control
        compressor_train_results_to_return_last_part = compressor_train_results_last_part_with_optimal_speed_result
    compressor_train_results_to_return_stage_results = list(compressor_train_results_to_return_first_part.stage_results + compressor_train_results_to_return_last_part.stage_results)
    train_result = CompressorTrainResultSingleTimeStep(inlet_stream=compressor_train_results_to_return_first_part.inlet_stream, outlet_stream=compressor_train_results_to_return_last_part.outlet_stream, speed=compressor_train_first_part.shaft.get_speed(), stage_results=compressor_train_results_to_return_stage_results, above_maximum_power=sum([stage_result.power_megawatt for stage_result in compressor_train_results_to_return_stage_results]) > self.maximum_power if self.maximum_power else False, target_pressure_status=TargetPressureStatus.NOT_CALCULATED)
    target_pressure_status = self.check_target_pressures(constraints=constraints, results=train_result)
    train_result.target_pressure_status = target_pressure_status
    return train_result


@target("libecalc.domain.process.compressor.core.train.compressor_train_common_shaft.CompressorTrainCommonShaft._check_intermediate_pressure_stage_number_is_valid", props=["C24"])
def CompressorTrainCommonShaft_check_intermediate_pressure_stage_number_is_valid(_stage_number_intermediate_pressure, number_of_stages):
    if _stage_number_intermediate_pressure is None or (_stage_number_intermediate_pressure < 1 or _stage_number_intermediate_pressure > number_of_stages - 1):
        msg = f'The stage number for the intermediate pressure must point to one of the intermediate stages and can not be smaller than 1, and can not be larger than 1 minus the number of stages, but is {_stage_number_intermediate_pressure} while the number of stages is {number_of_stages}. You should not end up here, please contact support'
        raise IllegalStateException(msg)


@target("libecalc.domain.process.compressor.core.train.simplified_train.simplified_train.CompressorTrainSimplified.__init__", props=["C24"])
def CompressorTrainSimplified_init(self, stages, fluid_service, energy_usage_adjustment_constant=0.0, energy_usage_adjustment_factor=1.0, calculate_max_rate=False, maximum_power=None):
    super().__init__(energy_usage_adjustment_constant=energy_usage_adjustment_constant, energy_usage_adjustment_factor=energy_usage_adjustment_factor, stages=stages, fluid_service=fluid_service, maximum_power=maximum_power, pressure_control=None, calculate_max_rate=calculate_max_rate)


@target("libecalc.domain.process.compressor.core.train.simplified_train.simplified_train.CompressorTrainSimplified.evaluate_given_constraints", props=["C24"])
def CompressorTrainSimplified_evaluate_given_constraints(self, constraints):
    pressure_ratios_per_stage = self.calculate_pressure_ratios_per_stage(suction_pressure=constraints.suction_pressure, discharge_pressure=constraints.discharge_pressure)
    inlet_stream = self.train_inlet_stream(pressure=constraints.suction_pressure, temperature=self.stages[0].inlet_temperature_kelvin, rate=constraints.inlet_rate)
    if inlet_stream.mass_rate_kg_per_h > 0:
        compressor_stages_result = []
        for stage in self.stages:
            compressor_stage_result = stage.evaluate_given_target_pressure_ratio(inlet_stream=inlet_stream, target_pressure_ratio=pressure_ratios_per_stage)
            compressor_stages_result.append(compressor_stage_result)
            inlet_stream = compressor_stage_result.outlet_stream
        return CompressorTrainResultSingleTimeStep(speed=np.nan, stage_results=compressor_stages_result, above_maximum_power=sum([stage_result.power_megawatt for stage_result in compressor_stages_result]) > self.maximum_power if self.maximum_power else False, target_pressure_status=self.check_target_pressures(constraints=constraints, results=compressor_stages_result), inlet_stream=compressor_stages_result[0].inlet_stream, outlet_stream=compressor_stages_result[-1].outlet_stream)
    else:
        return CompressorTrainResultSingleTimeStep.create_empty(number_of_stages=len(self.stages))


@target("libecalc.domain.process.compressor.core.train.simplified_train.simplified_train.CompressorTrainSimplified._get_max_std_rate_single_timestep", props=["C24"])
def CompressorTrainSimplified_get_max_std_rate_single_timestep(self, constraints):
    suction_pressure = constraints.suction_pressure
    discharge_pressure = constraints.discharge_pressure
    if self.stages is None:
        raise ValueError()
    pressure_ratios_per_stage = self.calculate_pressure_ratios_per_stage(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    inlet_pressure_all_stages = self._calculate_inlet_pressure_stages(inlet_pressure=suction_pressure, pressure_ratio_per_stage=pressure_ratios_per_stage, number_of_stages=len(self.stages))
    fluid_model = self.fluid_model
    stages_maximum_standard_rates = [self.calculate_maximum_rate_for_stage(inlet_stream=self._fluid_service.create_stream_from_mass_rate(fluid_model=fluid_model, pressure_bara=inlet_pressure_all_stages[stage_index], temperature_kelvin=stage.inlet_temperature_kelvin, mass_rate_kg_per_h=1), compressor_chart=stage.compressor.compressor_chart, pressure_ratio=pressure_ratios_per_stage, fluid_service=stage.fluid_service) for stage_index, stage in enumerate(self.stages)]
    return min(stages_maximum_standard_rates)


@target("libecalc.domain.process.compressor.core.train.simplified_train.simplified_train.CompressorTrainSimplified._calculate_inlet_pressure_stages", props=["C24"])
def CompressorTrainSimplified_calculate_inlet_pressure_stages(inlet_pressure, pressure_ratio_per_stage, number_of_stages):
    inlet_pressure_stages = []
    inlet_pressure_stage = inlet_pressure
    for _ in range(number_of_stages):
        inlet_pressure_stages.append(inlet_pressure_stage)
        inlet_pressure_stage *= pressure_ratio_per_stage
    return inlet_pressure_stages


@target("libecalc.domain.process.compressor.core.train.simplified_train.simplified_train.CompressorTrainSimplified.calculate_maximum_rate_for_stage", props=["C24"])
def CompressorTrainSimplified_calculate_maximum_rate_for_stage(pressure_ratio, inlet_stream, compressor_chart, fluid_service):
    outlet_pressure = inlet_stream.pressure_bara * pressure_ratio
    if pressure_ratio < 1:
        error_message = 'Outlet pressure ratio can not be less than 1'
        raise IllegalStateException(error_message)
    maximum_rate_function = compressor_chart.get_maximum_rate
    maximum_head_on_maximum_speed_curve = float(np.max(compressor_chart.maximum_speed_curve.head_values))
    polytropic_head = float(np.mean(compressor_chart.maximum_speed_curve.head_values))
    z = inlet_stream.z
    kappa = inlet_stream.kappa
    maximum_actual_volume_rate_previous = 1e-05
    converged = False
    i = 0
    expected_diff = 0.001
    max_iterations = 20
    while not converged and i < max_iterations:
        maximum_actual_volume_rate = float(maximum_rate_function(heads=polytropic_head, extrapolate_heads_below_minimum=False))
        polytropic_efficiency = compressor_chart.efficiency_as_function_of_rate_and_head(rates=np.atleast_1d(maximum_actual_volume_rate), heads=np.atleast_1d(polytropic_head))[0]
        polytropic_head = calculate_polytropic_head_campbell(polytropic_efficiency=polytropic_efficiency, kappa=kappa, z=z, molar_mass=inlet_stream.molar_mass, pressure_ratios=pressure_ratio, temperatures_kelvin=inlet_stream.temperature_kelvin)
        enthalpy_change_joule_per_kg = polytropic_head / polytropic_efficiency
        target_enthalpy_joule_per_kg = inlet_stream.enthalpy_joule_per_kg + enthalpy_change_joule_per_kg
        try:
            props = flash_ph_for_compressor_calculation(fluid_service=fluid_service, inlet_stream=inlet_stream, outlet_pressure_bara=outlet_pressure, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, operation='simplified compressor train maximum-rate PH flash', details={'pressure_ratio': pressure_ratio, 'polytropic_head_joule_per_kg': polytropic_head, 'polytropic_efficiency': polytropic_efficiency, 'maximum_head_on_maximum_speed_curve': maximum_head_on_maximum_speed_curve})
        except CompressorThermodynamicCalculationError:
            is_above_chart_maximum_head = polytropic_head > maximum_head_on_maximum_speed_curve
            if not is_above_chart_maximum_head:
                raise
            chart_limited_maximum_actual_volume_rate = float(maximum_rate_function(heads=polytropic_head, extrapolate_heads_below_minimum=False))
            maximum_actual_volume_rate = chart_limited_maximum_actual_volume_rate
            break
        outlet_fluid = Fluid(fluid_model=inlet_stream.fluid_model, properties=props)
        outlet_stream = inlet_stream.with_new_fluid(outlet_fluid)
        diff = np.linalg.norm(maximum_actual_volume_rate - maximum_actual_volume_rate_previous) / np.linalg.norm(maximum_actual_volume_rate_previous)
        converged = diff < expected_diff
        z = (inlet_stream.z + outlet_stream.z) / 2.0
        kappa = (inlet_stream.kappa + outlet_stream.kappa) / 2.0
        maximum_actual_volume_rate_previous = maximum_actual_volume_rate
        i += 1
        if i == max_iterations:
            pass
    inlet_density_kg_per_m3 = inlet_stream.density
    maximum_mass_rate_kg_per_hour = maximum_actual_volume_rate * inlet_density_kg_per_m3
    maximum_standard_rate = maximum_mass_rate_kg_per_hour / inlet_stream.standard_density_gas_phase_after_flash * UnitConstants.HOURS_PER_DAY
    return maximum_standard_rate


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.__init__", props=["C24"])
def CompressorTrainStage_init(self, compressor, temperature_setter, liquid_remover, rate_modifier, fluid_service, splitter=None, mixer=None, choke=None, interstage_pressure_control=None):
    self.temperature_setter = temperature_setter
    self.liquid_remover = liquid_remover
    self.choke = choke
    self.rate_modifier = rate_modifier
    self.compressor = compressor
    self.splitter = splitter
    self.mixer = mixer
    self.interstage_pressure_control = interstage_pressure_control
    self._fluid_service = fluid_service


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.fluid_service", props=["C24"])
def CompressorTrainStage_fluid_service(self):
    return self._fluid_service


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.remove_liquid_after_cooling", props=["C24"])
def CompressorTrainStage_remove_liquid_after_cooling(self):
    return self.liquid_remover is not None


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.has_control_pressure", props=["C24"])
def CompressorTrainStage_has_control_pressure(self):
    return self.interstage_pressure_control is not None


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.pressure_drop_ahead_of_stage", props=["C24"])
def CompressorTrainStage_pressure_drop_ahead_of_stage(self):
    return self.choke.pressure_change if self.choke is not None else 0.0


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.inlet_temperature_kelvin", props=["C24"])
def CompressorTrainStage_inlet_temperature_kelvin(self):
    return self.temperature_setter.required_temperature_kelvin


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.modify_pressure", props=["C24"])
def CompressorTrainStage_modify_pressure(self, inlet_stream_stage):
    if self.pressure_modifier:
        return self.pressure_modifier.modify_pressure(inlet_stream_stage)
    return inlet_stream_stage


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.add_rate", props=["C24"])
def CompressorTrainStage_add_rate(self, inlet_stream_stage):
    return self.rate_modifier.add_rate(stream=inlet_stream_stage)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.remove_rate", props=["C24"])
def CompressorTrainStage_remove_rate(self, outlet_stream_stage):
    return self.rate_modifier.remove_rate(stream=outlet_stream_stage)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.get_compressor_inlet_stream", props=["C24"])
def CompressorTrainStage_get_compressor_inlet_stream(self, inlet_stream_stage, rates_out_of_splitter=None, streams_in_to_mixer=None):
    if self.splitter is not None:
        self.splitter.rates_out_of_splitter = rates_out_of_splitter
        inlet_stream_after_splitter = self.split(inlet_stream_stage=inlet_stream_stage)
    else:
        inlet_stream_after_splitter = inlet_stream_stage
    if self.mixer is not None:
        if streams_in_to_mixer is None:
            raise IllegalStateException('streams_in_to_mixer cannot be None when a mixer is defined')
        inlet_stream_after_mixer = self.mix(inlet_stream_stage=inlet_stream_after_splitter, streams_in_to_mixer=streams_in_to_mixer)
    else:
        inlet_stream_after_mixer = inlet_stream_after_splitter
    if self.choke is not None:
        inlet_stream_after_choke = self.choke.propagate_stream(inlet_stream_after_mixer)
    else:
        inlet_stream_after_choke = inlet_stream_after_mixer
    inlet_stream_after_temperature_setter = self.temperature_setter.propagate_stream(inlet_stream=inlet_stream_after_choke)
    if self.liquid_remover is not None:
        inlet_stream_after_liquid_remover = self.liquid_remover.propagate_stream(inlet_stream_after_temperature_setter)
    else:
        inlet_stream_after_liquid_remover = inlet_stream_after_temperature_setter
    return inlet_stream_after_liquid_remover


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.evaluate", props=["C24"])
def CompressorTrainStage_evaluate(self, inlet_stream_stage, rates_out_of_splitter=None, streams_in_to_mixer=None):
    inlet_stream_compressor = self.get_compressor_inlet_stream(inlet_stream_stage=inlet_stream_stage, rates_out_of_splitter=rates_out_of_splitter, streams_in_to_mixer=streams_in_to_mixer)
    inlet_stream_compressor_including_asv = self.add_rate(inlet_stream_stage=inlet_stream_compressor)
    self.compressor.validate_speed()
    self.compressor.set_rate_before_asv(rate_before_asv_m3_per_h=inlet_stream_compressor.volumetric_rate_m3_per_hour)
    outlet_stream_compressor_including_asv = self.compress(inlet_stream_compressor=inlet_stream_compressor_including_asv)
    operational_point = self.compressor.operational_point
    chart_area_flag = self.compressor.chart_area_flag
    outlet_stream_compressor = self.rate_modifier.remove_rate(outlet_stream_compressor_including_asv)
    enthalpy_change = operational_point.polytropic_head_joule_per_kg / operational_point.polytropic_efficiency
    power_megawatt = calculate_power_in_megawatt(enthalpy_change_joule_per_kg=enthalpy_change, mass_rate_kg_per_hour=inlet_stream_compressor_including_asv.mass_rate_kg_per_h)
    return CompressorTrainStageResultSingleTimeStep(inlet_stream=inlet_stream_compressor, outlet_stream=outlet_stream_compressor, inlet_stream_including_asv=inlet_stream_compressor_including_asv, outlet_stream_including_asv=outlet_stream_compressor_including_asv, polytropic_head_kJ_per_kg=operational_point.polytropic_head_joule_per_kg / 1000, polytropic_efficiency=operational_point.polytropic_efficiency, chart_area_flag=chart_area_flag, polytropic_enthalpy_change_kJ_per_kg=enthalpy_change / 1000, power_megawatt=power_megawatt, point_is_valid=operational_point.is_valid, polytropic_enthalpy_change_before_choke_kJ_per_kg=enthalpy_change / 1000)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.split", props=["C24"])
def CompressorTrainStage_split(self, inlet_stream_stage):
    split_streams = self.splitter.split_stream(stream=inlet_stream_stage)
    return split_streams[-1]


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.mix", props=["C24"])
def CompressorTrainStage_mix(self, inlet_stream_stage, streams_in_to_mixer, prefer_first_stream=True):
    if self.mixer.number_of_inputs != len(streams_in_to_mixer) + 1:
        raise IllegalStateException(f'Number of additional rates to LegacyMixer ({len(streams_in_to_mixer)}) does not match number of LegacyMixer inputs ({self.mixer.number_of_inputs}).')
    all_streams_to_mixer = [inlet_stream_stage] + streams_in_to_mixer
    if sum((s.mass_rate_kg_per_h for s in all_streams_to_mixer)) == 0:
        if prefer_first_stream:
            return inlet_stream_stage
    return self.mixer.mix_streams(streams=all_streams_to_mixer)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.compress", props=["C24"])
def CompressorTrainStage_compress(self, inlet_stream_compressor):
    return self.compressor.compress(inlet_stream=inlet_stream_compressor)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.evaluate_given_speed_and_target_discharge_pressure", props=["C24"])
def CompressorTrainStage_evaluate_given_speed_and_target_discharge_pressure(self, inlet_stream_stage, target_discharge_pressure):
    EPSILON = 1e-05
    self.rate_modifier.mass_rate_to_recirculate = 0
    result_no_recirculation = self.evaluate(inlet_stream_stage=inlet_stream_stage)
    maximum_rate = self.compressor.get_max_rate()
    max_recirculation = max(maximum_rate * float(result_no_recirculation.inlet_stream.density) - inlet_stream_stage.mass_rate_kg_per_h - EPSILON, 0)
    self.rate_modifier.mass_rate_to_recirculate = max_recirculation
    result_max_recirculation = self.evaluate(inlet_stream_stage=inlet_stream_stage)
    if result_no_recirculation.discharge_pressure < target_discharge_pressure:
        return result_no_recirculation
    elif result_max_recirculation.discharge_pressure > target_discharge_pressure:
        return result_max_recirculation

    def _calculate_compressor_stage(additional_mass_rate):
        self.rate_modifier.mass_rate_to_recirculate = additional_mass_rate
        return self.evaluate(inlet_stream_stage=inlet_stream_stage)
    result_mass_rate = find_root(lower_bound=0, upper_bound=max_recirculation, func=lambda x: _calculate_compressor_stage(additional_mass_rate=x).discharge_pressure - target_discharge_pressure)
    return _calculate_compressor_stage(result_mass_rate)


@target("libecalc.domain.process.compressor.core.train.stage.CompressorTrainStage.evaluate_given_target_pressure_ratio", props=["C24"])
def CompressorTrainStage_evaluate_given_target_pressure_ratio(self, inlet_stream, target_pressure_ratio, adjust_for_chart=True):
    outlet_pressure = inlet_stream.pressure_bara * target_pressure_ratio
    new_fluid = self._fluid_service.create_fluid(inlet_stream.fluid_model, inlet_stream.pressure_bara, self.inlet_temperature_kelvin)
    inlet_stream = inlet_stream.with_new_fluid(new_fluid)
    if inlet_stream.mass_rate_kg_per_h > 0:
        polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(inlet_streams=inlet_stream, outlet_pressure=outlet_pressure, polytropic_efficiency_vs_rate_and_head_function=self.compressor.compressor_chart.efficiency_as_function_of_rate_and_head, fluid_service=self._fluid_service)
        if adjust_for_chart:
            head_joule_per_kg = polytropic_enthalpy_change_joule_per_kg * polytropic_efficiency
            compressor_chart_result = self.compressor.compressor_chart.evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=inlet_stream.volumetric_rate_m3_per_hour, heads=head_joule_per_kg, extrapolate_heads_below_minimum=True)
            asv_corrected_actual_rate_m3_per_hour = compressor_chart_result.asv_corrected_rates[0]
            choke_corrected_polytropic_head = compressor_chart_result.choke_corrected_heads[0]
            rate_has_recirc = compressor_chart_result.rate_has_recirc[0]
            pressure_is_choked = compressor_chart_result.pressure_is_choked[0]
            rate_exceeds_maximum = compressor_chart_result.rate_exceeds_maximum[0]
            head_exceeds_maximum = compressor_chart_result.head_exceeds_maximum[0]
            exceeds_capacity = compressor_chart_result.exceeds_capacity[0]
            polytropic_enthalpy_change_to_use_joule_per_kg = choke_corrected_polytropic_head / polytropic_efficiency
            mass_rate_to_use_kg_per_hour = asv_corrected_actual_rate_m3_per_hour * inlet_stream.density
        else:
            polytropic_enthalpy_change_to_use_joule_per_kg = polytropic_enthalpy_change_joule_per_kg
            mass_rate_to_use_kg_per_hour = inlet_stream.mass_rate_kg_per_h
            rate_has_recirc = False
            pressure_is_choked = False
            rate_exceeds_maximum = False
            head_exceeds_maximum = False
            exceeds_capacity = False
    else:
        polytropic_enthalpy_change_to_use_joule_per_kg = 0.0
        polytropic_enthalpy_change_joule_per_kg = 0.0
        polytropic_efficiency = np.nan
        mass_rate_to_use_kg_per_hour = inlet_stream.mass_rate_kg_per_h
        rate_has_recirc = False
        pressure_is_choked = False
        rate_exceeds_maximum = False
        head_exceeds_maximum = False
        exceeds_capacity = False
    target_enthalpy_joule_per_kg = float(inlet_stream.enthalpy_joule_per_kg + polytropic_enthalpy_change_to_use_joule_per_kg)
    props = self._fluid_service.flash_ph(fluid_model=inlet_stream.fluid_model, pressure_bara=float(outlet_pressure), target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, temperature_guess_kelvin=inlet_stream.temperature_kelvin)
    outlet_fluid = Fluid(fluid_model=inlet_stream.fluid_model, properties=props)
    outlet_stream = inlet_stream.with_new_fluid(outlet_fluid)
    power_mw = mass_rate_to_use_kg_per_hour * polytropic_enthalpy_change_to_use_joule_per_kg / UnitConstants.SECONDS_PER_HOUR * UnitConstants.WATT_TO_MEGAWATT
    if exceeds_capacity:
        power_mw = np.nan
    polytropic_enthalpy_change_kilo_joule_per_kg = polytropic_enthalpy_change_joule_per_kg * UnitConstants.TO_KILO
    if pressure_is_choked and rate_has_recirc:
        chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE
    elif pressure_is_choked and rate_exceeds_maximum:
        chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE
    elif rate_has_recirc:
        chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_FLOW_RATE
    elif rate_exceeds_maximum:
        chart_area_flag = ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
    elif pressure_is_choked:
        chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED
    elif head_exceeds_maximum:
        chart_area_flag = ChartAreaFlag.ABOVE_MAXIMUM_SPEED
    else:
        chart_area_flag = ChartAreaFlag.INTERNAL_POINT
    return CompressorTrainStageResultSingleTimeStep(inlet_stream=inlet_stream, outlet_stream=outlet_stream, inlet_stream_including_asv=inlet_stream.with_mass_rate(mass_rate_to_use_kg_per_hour), outlet_stream_including_asv=outlet_stream.with_mass_rate(mass_rate_to_use_kg_per_hour), power_megawatt=power_mw, chart_area_flag=chart_area_flag, polytropic_enthalpy_change_kJ_per_kg=polytropic_enthalpy_change_to_use_joule_per_kg / 1000, polytropic_enthalpy_change_before_choke_kJ_per_kg=polytropic_enthalpy_change_kilo_joule_per_kg, polytropic_head_kJ_per_kg=polytropic_enthalpy_change_to_use_joule_per_kg * polytropic_efficiency / 1000, polytropic_efficiency=polytropic_efficiency, rate_has_recirculation=rate_has_recirc, rate_exceeds_maximum=rate_exceeds_maximum, pressure_is_choked=pressure_is_choked, head_exceeds_maximum=head_exceeds_maximum, point_is_valid=~np.isnan(power_mw))


@target("libecalc.domain.process.compressor.core.train.train_evaluation_input.CompressorTrainEvaluationInput", props=["C24"])
class CompressorTrainEvaluationInputValues:
    suction_pressure = None
    discharge_pressure = None
    interstage_pressure = None
    rates = None


@target("libecalc.domain.process.compressor.core.train.train_evaluation_input.CompressorTrainEvaluationInput.create_conditions_with_new_input", props=["C24"])
def CompressorTrainEvaluationInput_create_conditions_with_new_input(self, new_rate=None, new_suction_pressure=None, new_discharge_pressure=None, new_interstage_pressure=None, new_rates=None):
    if new_rate is not None:
        new_rates = self.rates.copy()
        new_rates[0] = new_rate
    if new_suction_pressure is None:
        new_suction_pressure = self.suction_pressure
    if new_discharge_pressure is None:
        new_discharge_pressure = self.discharge_pressure
    if new_interstage_pressure is None:
        new_interstage_pressure = self.interstage_pressure
    if new_rates is None:
        new_rates = self.rates
    return CompressorTrainEvaluationInput(suction_pressure=new_suction_pressure, discharge_pressure=new_discharge_pressure, interstage_pressure=new_interstage_pressure, rates=new_rates)


@target("libecalc.domain.process.compressor.core.train.train_evaluation_input.CompressorTrainEvaluationInput.inlet_rate", props=["C24"])
def CompressorTrainEvaluationInput_inlet_rate(self):
    if self.rates is None:
        return None
    return self.rates[0]


@target("libecalc.domain.process.compressor.core.train.types.StreamPort.__init__", props=["C24"])
def StreamPort_init(self, is_inlet_port, connected_to_stage_no=0):
    self.is_inlet_port = is_inlet_port
    self.connected_to_stage_no = connected_to_stage_no


@target("libecalc.domain.process.compressor.core.train.utils.common", props=["C24"])
class K205_constants:
    FLOATING_POINT_PRECISION = 1e-06
    EPSILON = 1e-05
    PRESSURE_CALCULATION_TOLERANCE = 0.001
    POWER_CALCULATION_TOLERANCE = 0.001
    RATE_CALCULATION_TOLERANCE = 0.001
    RECIRCULATION_BOUNDARY_TOLERANCE = 1e-06
    MAX_FIRST_GUESS_BAR = 2000.0


@target("libecalc.domain.process.compressor.core.train.utils.common.flash_ph_for_compressor_calculation", props=["C24"])
def f_flash_ph_for_compressor_calculation(fluid_service, inlet_stream, outlet_pressure_bara, target_enthalpy_joule_per_kg, operation, error_class=CompressorThermodynamicCalculationError, details=None):
    error_details = {'outlet_pressure_bara': outlet_pressure_bara, 'target_enthalpy_joule_per_kg': target_enthalpy_joule_per_kg, 'temperature_guess_kelvin': inlet_stream.temperature_kelvin, 'inlet_pressure_bara': inlet_stream.pressure_bara, 'inlet_temperature_kelvin': inlet_stream.temperature_kelvin, **(details or {})}
    try:
        properties = fluid_service.flash_ph(fluid_model=inlet_stream.fluid_model, pressure_bara=outlet_pressure_bara, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, temperature_guess_kelvin=inlet_stream.temperature_kelvin)
    except CompressorThermodynamicCalculationError:
        raise
    except FluidFlashCalculationError as error:
        raise error_class(operation=operation, reason=f'PH flash failed: {error}', details=error_details)
    validate_ph_flash_result(properties, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, context='PH flash result validation', error_factory=lambda reason: error_class(operation=operation, reason=reason, details=error_details))
    return properties


@target("libecalc.domain.process.compressor.core.train.utils.common._flash_ph_for_compressor_outlet", props=["C24"])
def f_flash_ph_for_compressor_outlet(fluid_service, inlet_stream, outlet_pressure_bara, target_enthalpy_joule_per_kg, operation, details=None):
    return flash_ph_for_compressor_calculation(fluid_service=fluid_service, inlet_stream=inlet_stream, outlet_pressure_bara=outlet_pressure_bara, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, operation=operation, error_class=CompressorOutletCalculationError, details=details)


@target("libecalc.domain.process.compressor.core.train.utils.common.calculate_asv_corrected_rate", props=["C24"])
def f_calculate_asv_corrected_rate(minimum_actual_rate_m3_per_hour, actual_rate_m3_per_hour, density_kg_per_m3):
    actual_rate_asv_corrected_m3_per_hour = max(actual_rate_m3_per_hour, minimum_actual_rate_m3_per_hour)
    mass_rate_asv_corrected_kg_per_hour = actual_rate_asv_corrected_m3_per_hour * density_kg_per_m3
    return (actual_rate_asv_corrected_m3_per_hour, mass_rate_asv_corrected_kg_per_hour)


@target("libecalc.domain.process.compressor.core.train.utils.common.calculate_power_in_megawatt", props=["C24"])
def f_calculate_power_in_megawatt(enthalpy_change_joule_per_kg, mass_rate_kg_per_hour):
    return enthalpy_change_joule_per_kg * mass_rate_kg_per_hour / UnitConstants.SECONDS_PER_HOUR * UnitConstants.WATT_TO_MEGAWATT


@target("libecalc.domain.process.compressor.core.train.utils.common.calculate_outlet_pressure_and_stream", props=["C24"])
def f_calculate_outlet_pressure_and_stream(polytropic_efficiency, polytropic_head_joule_per_kg, inlet_stream, fluid_service):
    outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa = calculate_outlet_pressure_campbell(kappa=inlet_stream.kappa, polytropic_efficiency=polytropic_efficiency, polytropic_head_fluid_Joule_per_kg=polytropic_head_joule_per_kg, molar_mass=inlet_stream.molar_mass, z_inlet=inlet_stream.z, inlet_temperature_K=inlet_stream.temperature_kelvin, inlet_pressure_bara=inlet_stream.pressure_bara)
    require_positive_finite(outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa, 'initial Campbell outlet pressure', 'calculate_outlet_pressure_and_stream', error_factory=lambda reason: CompressorOutletCalculationError(operation='compressor outlet pressure calculation', reason=reason, details={'polytropic_efficiency': polytropic_efficiency, 'polytropic_head_joule_per_kg': polytropic_head_joule_per_kg, 'inlet_pressure_bara': inlet_stream.pressure_bara, 'inlet_temperature_kelvin': inlet_stream.temperature_kelvin}))
    if outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa > MAX_FIRST_GUESS_BAR:
        outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa = MAX_FIRST_GUESS_BAR
    enthalpy_change = polytropic_head_joule_per_kg / polytropic_efficiency
    target_enthalpy_joule_per_kg = inlet_stream.enthalpy_joule_per_kg + enthalpy_change
    props = _flash_ph_for_compressor_outlet(fluid_service=fluid_service, inlet_stream=inlet_stream, outlet_pressure_bara=float(outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa), target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, operation='compressor outlet initial PH flash', details={'polytropic_efficiency': polytropic_efficiency, 'polytropic_head_joule_per_kg': polytropic_head_joule_per_kg})
    outlet_fluid = Fluid(fluid_model=inlet_stream.fluid_model, properties=props)
    outlet_stream_compressor_current_iteration = inlet_stream.with_new_fluid(outlet_fluid)
    outlet_pressure_this_stage_bara = outlet_pressure_this_stage_bara_based_on_inlet_z_and_kappa * 0.95
    converged = False
    i = 0
    max_iterations = 30
    state = DampState()
    while not converged and i < max_iterations:
        z_average = (inlet_stream.z + outlet_stream_compressor_current_iteration.z) / 2.0
        kappa_average = (inlet_stream.kappa + outlet_stream_compressor_current_iteration.kappa) / 2.0
        outlet_pressure_previous = outlet_pressure_this_stage_bara
        p_raw = calculate_outlet_pressure_campbell(kappa=kappa_average, polytropic_efficiency=polytropic_efficiency, polytropic_head_fluid_Joule_per_kg=polytropic_head_joule_per_kg, molar_mass=inlet_stream.molar_mass, z_inlet=z_average, inlet_temperature_K=inlet_stream.temperature_kelvin, inlet_pressure_bara=inlet_stream.pressure_bara)
        require_positive_finite(p_raw, 'Campbell outlet pressure', f'calculate_outlet_pressure_and_stream iteration {i}', error_factory=lambda reason: CompressorOutletCalculationError(operation=f'compressor outlet pressure iteration {i}', reason=reason, details={'polytropic_efficiency': polytropic_efficiency, 'polytropic_head_joule_per_kg': polytropic_head_joule_per_kg, 'inlet_pressure_bara': inlet_stream.pressure_bara, 'inlet_temperature_kelvin': inlet_stream.temperature_kelvin}))
        outlet_pressure_this_stage_bara, state = adaptive_pressure_update(p_prev=outlet_pressure_this_stage_bara, p_raw=p_raw, state=state)
        require_positive_finite(outlet_pressure_this_stage_bara, 'damped outlet pressure', f'calculate_outlet_pressure_and_stream iteration {i}', error_factory=lambda reason: CompressorOutletCalculationError(operation=f'compressor outlet pressure iteration {i}', reason=reason, details={'polytropic_efficiency': polytropic_efficiency, 'polytropic_head_joule_per_kg': polytropic_head_joule_per_kg, 'inlet_pressure_bara': inlet_stream.pressure_bara, 'inlet_temperature_kelvin': inlet_stream.temperature_kelvin}))
        props = _flash_ph_for_compressor_outlet(fluid_service=fluid_service, inlet_stream=inlet_stream, outlet_pressure_bara=outlet_pressure_this_stage_bara, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, operation=f'compressor outlet PH flash iteration {i}', details={'polytropic_efficiency': polytropic_efficiency, 'polytropic_head_joule_per_kg': polytropic_head_joule_per_kg})
        outlet_fluid = Fluid(fluid_model=inlet_stream.fluid_model, properties=props)
        outlet_stream_compressor_current_iteration = inlet_stream.with_new_fluid(outlet_fluid)
        diff = abs(outlet_pressure_previous - outlet_pressure_this_stage_bara) / outlet_pressure_this_stage_bara
        converged = diff < PRESSURE_CALCULATION_TOLERANCE
        i += 1
        if i == max_iterations:
            pass
    return outlet_stream_compressor_current_iteration


@target("libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations.calculate_enthalpy_change_head_iteration", props=["C24"])
def f_calculate_enthalpy_change_head_iteration(outlet_pressure, polytropic_efficiency_vs_rate_and_head_function, inlet_streams, fluid_service):
    single_input = False
    if isinstance(inlet_streams, FluidStream):
        single_input = True
        inlet_streams = [inlet_streams]
        if isinstance(outlet_pressure, float):
            outlet_pressure = np.array([outlet_pressure])
    if isinstance(outlet_pressure, float) and len(inlet_streams) > 1 or (isinstance(outlet_pressure, np.ndarray) and len(inlet_streams) != len(outlet_pressure)):
        raise ValueError()
    inlet_pressure = np.asarray([stream.pressure_bara for stream in inlet_streams])
    outlet_pressure = np.atleast_1d(outlet_pressure)
    inlet_temperature_kelvin = np.asarray([stream.temperature_kelvin for stream in inlet_streams])
    inlet_actual_rate_m3_per_hour = np.asarray([stream.volumetric_rate_m3_per_hour for stream in inlet_streams])
    molar_mass = inlet_streams[0].molar_mass
    pressure_ratios = np.divide(outlet_pressure, inlet_pressure)
    inlet_kappa = np.asarray([stream.kappa for stream in inlet_streams])
    inlet_z = np.asarray([stream.z for stream in inlet_streams])
    polytropic_heads = np.full_like(inlet_actual_rate_m3_per_hour, 0.0)
    z = deepcopy(inlet_z)
    kappa = deepcopy(inlet_kappa)
    enthalpy_change_joule_per_kg = np.zeros_like(inlet_actual_rate_m3_per_hour)
    polytropic_efficiency = polytropic_efficiency_vs_rate_and_head_function(inlet_actual_rate_m3_per_hour, polytropic_heads)
    converged = False
    i = 0
    max_iterations = 20
    expected_diff = 0.001
    while not converged and i < max_iterations:
        polytropic_heads_previous = polytropic_heads.copy()
        polytropic_efficiency = polytropic_efficiency_vs_rate_and_head_function(inlet_actual_rate_m3_per_hour, polytropic_heads)
        polytropic_heads = calculate_polytropic_head_campbell(polytropic_efficiency=polytropic_efficiency, kappa=kappa, z=z, molar_mass=molar_mass, pressure_ratios=pressure_ratios, temperatures_kelvin=inlet_temperature_kelvin)
        enthalpy_change_joule_per_kg = polytropic_heads / polytropic_efficiency
        outlet_streams = []
        for stream, pressure, enthalpy_change in zip(inlet_streams, outlet_pressure, enthalpy_change_joule_per_kg):
            target_enthalpy_joule_per_kg = stream.enthalpy_joule_per_kg + enthalpy_change
            props = fluid_service.flash_ph(fluid_model=stream.fluid_model, pressure_bara=pressure, target_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg, temperature_guess_kelvin=stream.temperature_kelvin)
            outlet_fluid = Fluid(fluid_model=stream.fluid_model, properties=props)
            outlet_streams.append(stream.with_new_fluid(outlet_fluid))
        outlet_kappa = np.asarray([stream.kappa for stream in outlet_streams])
        outlet_z = np.asarray([stream.z for stream in outlet_streams])
        z = (inlet_z + outlet_z) / 2
        kappa = (inlet_kappa + outlet_kappa) / 2
        if np.linalg.norm(polytropic_heads_previous) != 0:
            rel_diff = float(np.linalg.norm(polytropic_heads - polytropic_heads_previous) / np.linalg.norm(polytropic_heads_previous))
        else:
            rel_diff = 1
        converged = rel_diff < expected_diff
        i += 1
        if i == max_iterations:
            pass
    if not single_input:
        return (enthalpy_change_joule_per_kg, polytropic_efficiency)
    return (float(enthalpy_change_joule_per_kg[0]), float(polytropic_efficiency[0]))


@target("libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations.calculate_polytropic_head_campbell", props=["C24"])
def f_calculate_polytropic_head_campbell(polytropic_efficiency, kappa, z, molar_mass, pressure_ratios, temperatures_kelvin):
    input_is_numpy = isinstance(kappa, np.ndarray)
    polytropic_efficiency = np.atleast_1d(polytropic_efficiency)
    kappa = np.atleast_1d(kappa)
    z = np.atleast_1d(z)
    molar_mass = np.atleast_1d(molar_mass)
    pressure_ratios = np.atleast_1d(pressure_ratios)
    temperatures_kelvin = np.atleast_1d(temperatures_kelvin)
    result = _calculate_head(exponent_expression=_calculate_polytropic_exponent_expression_n_minus_1_over_n(kappa, polytropic_efficiency), temperature_kelvin=temperatures_kelvin, pressure_ratio=pressure_ratios, z=z, molar_mass=molar_mass)
    return result if input_is_numpy else result[0]


@target("libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations._calculate_head", props=["C24"])
def f_calculate_head(exponent_expression, temperature_kelvin, pressure_ratio, z, molar_mass):
    return 1 / exponent_expression * (z * UnitConstants.GAS_CONSTANT * temperature_kelvin) / molar_mass * (pressure_ratio ** exponent_expression - 1)


@target("libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations._calculate_polytropic_exponent_expression_n_minus_1_over_n", props=["C24"])
def f_calculate_polytropic_exponent_expression_n_minus_1_over_n(kappa, polytropic_efficiency):
    return (kappa - 1.0) / (kappa * polytropic_efficiency)


@target("libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations.calculate_outlet_pressure_campbell", props=["C24"])
def f_calculate_outlet_pressure_campbell(kappa, polytropic_efficiency, polytropic_head_fluid_Joule_per_kg, molar_mass, z_inlet, inlet_temperature_K, inlet_pressure_bara):
    n_over_n_minus_1 = 1.0 / _calculate_polytropic_exponent_expression_n_minus_1_over_n(np.array([kappa]), np.array([polytropic_efficiency]))[0]
    p2_p1_fraction = (1.0 + polytropic_head_fluid_Joule_per_kg / n_over_n_minus_1 * molar_mass / (z_inlet * UnitConstants.GAS_CONSTANT * inlet_temperature_K)) ** n_over_n_minus_1
    outlet_pressure_bara = inlet_pressure_bara * p2_p1_fraction
    return float(outlet_pressure_bara)


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.__init__", props=["C24"])
def LegacyCompressor_init(self, compressor_chart, fluid_service, shaft):
    self._compressor_chart = CompressorChart(compressor_chart)
    self._fluid_service = fluid_service
    self._shaft = shaft
    self._rate_before_asv_m3_per_h = None
    self._operational_point = None
    self._chart_area_flag = None


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.compressor_chart", props=["C24"])
def LegacyCompressor_compressor_chart(self):
    return self._compressor_chart


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.operational_point", props=["C24"])
def LegacyCompressor_operational_point(self):
    return self._operational_point


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.chart_area_flag", props=["C24"])
def LegacyCompressor_chart_area_flag(self):
    return self._chart_area_flag


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.shaft", props=["C24"])
def LegacyCompressor_shaft(self):
    return self._shaft


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.speed", props=["C24"])
def LegacyCompressor_speed(self):
    if self.shaft is not None:
        return self.shaft.get_speed()
    return None


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.get_max_rate", props=["C24"])
def LegacyCompressor_get_max_rate(self):
    return self.compressor_chart.maximum_rate_as_function_of_speed(self.speed)


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.get_min_rate", props=["C24"])
def LegacyCompressor_get_min_rate(self):
    return self.compressor_chart.minimum_rate_as_function_of_speed(self.speed)


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.validate_speed", props=["C24"])
def LegacyCompressor_validate_speed(self):
    if self.speed is None or not self.compressor_chart.minimum_speed <= self.speed <= self.compressor_chart.maximum_speed:
        msg = f'Speed ({self.speed}) out of range ({self.compressor_chart.minimum_speed}-{self.compressor_chart.maximum_speed}).'
        raise IllegalStateException(msg)


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.set_rate_before_asv", props=["C24"])
def LegacyCompressor_set_rate_before_asv(self, rate_before_asv_m3_per_h):
    self._rate_before_asv_m3_per_h = rate_before_asv_m3_per_h


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.set_chart_area_flag_and_operational_point", props=["C24"])
def LegacyCompressor_set_chart_area_flag_and_operational_point(self, actual_rate_m3_per_h_including_asv):
    chart_result = self.compressor_chart.calculate_polytropic_head_and_efficiency_single_point(speed=self.speed, actual_rate_m3_per_hour_including_asv=actual_rate_m3_per_h_including_asv, actual_rate_m3_per_hour=self._rate_before_asv_m3_per_h)
    self._operational_point = OperationalPoint(actual_rate_m3_per_h=self._rate_before_asv_m3_per_h, polytropic_head_joule_per_kg=chart_result.polytropic_head, polytropic_efficiency=chart_result.polytropic_efficiency, is_valid=chart_result.is_valid)
    self._chart_area_flag = chart_result.chart_area_flag


@target("libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor.LegacyCompressor.compress", props=["C24"])
def LegacyCompressor_compress(self, inlet_stream):
    self.set_chart_area_flag_and_operational_point(actual_rate_m3_per_h_including_asv=inlet_stream.volumetric_rate_m3_per_hour)
    if self.operational_point.polytropic_efficiency == 0.0:
        raise ProcessCompressorEfficiencyValidationException('Efficiency from compressor chart is 0.')
    try:
        return calculate_outlet_pressure_and_stream(polytropic_efficiency=self.operational_point.polytropic_efficiency, polytropic_head_joule_per_kg=self.operational_point.polytropic_head_joule_per_kg, inlet_stream=inlet_stream, fluid_service=self._fluid_service)
    except CompressorOutletCalculationError:
        if self.operational_point.is_valid:
            raise
        return inlet_stream


@target("libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer.LegacyMixer.__init__", props=["C24"])
def LegacyMixer_init(self, number_of_inputs, fluid_service):
    self.number_of_inputs = number_of_inputs
    self._stream_mixer = StreamMixer(fluid_service)


@target("libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer.LegacyMixer.mix_streams", props=["C24"])
def LegacyMixer_mix_streams(self, streams):
    if self.number_of_inputs != len(streams):
        raise ValueError()
    return self._stream_mixer.mix_streams(streams=streams)


@target("libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter.LegacySplitter.__init__", props=["C24"])
def LegacySplitter_init(self, number_of_outputs, rates_out_of_splitter=None):
    self.number_of_outputs = number_of_outputs
    self._rates_out_of_splitter = [0.0] * (number_of_outputs - 1) if rates_out_of_splitter is None else rates_out_of_splitter


@target("libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter.LegacySplitter.rates_out_of_splitter", props=["C24"])
def LegacySplitter_rates_out_of_splitter(self):
    return self._rates_out_of_splitter


@target("libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter.LegacySplitter.split_stream", props=["C24"])
def LegacySplitter_split_stream(self, stream):
    last_rate = stream.standard_rate_sm3_per_day - sum(self.rates_out_of_splitter)
    if last_rate < 0:
        last_rate = 0.0
    all_rates_out_of_splitter = self.rates_out_of_splitter + [last_rate]
    split_fractions = [rate / sum(all_rates_out_of_splitter) for rate in all_rates_out_of_splitter]
    return [FluidStream(fluid=stream.fluid, mass_rate_kg_per_h=stream.mass_rate_kg_per_h * split_fraction) for split_fraction in split_fractions]


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.__init__", props=["C24"])
def RateModifier_init(self, compressor_chart, shaft):
    self._shaft = shaft
    self._compressor_chart = CompressorChart(compressor_chart)
    self._additional_mass_rate = 0.0
    self._mass_rate_to_recirculate = None
    self._fraction_of_available_capacity_to_recirculate = None


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.shaft", props=["C24"])
def RateModifier_shaft(self):
    return self._shaft


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.compressor_chart", props=["C24"])
def RateModifier_compressor_chart(self):
    return self._compressor_chart


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.speed", props=["C24"])
def RateModifier_speed(self):
    if self.shaft is not None:
        return self.shaft.get_speed()
    return None


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.get_max_rate", props=["C24"])
def RateModifier_get_max_rate(self):
    return self.compressor_chart.maximum_rate_as_function_of_speed(self.speed)


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.get_min_rate", props=["C24"])
def RateModifier_get_min_rate(self):
    return self.compressor_chart.minimum_rate_as_function_of_speed(self.speed)


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.mass_rate_to_recirculate", props=["C24"])
def RateModifier_mass_rate_to_recirculate(self):
    return self._mass_rate_to_recirculate


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.fraction_of_available_capacity_to_recirculate", props=["C24"])
def RateModifier_fraction_of_available_capacity_to_recirculate(self):
    return self._fraction_of_available_capacity_to_recirculate


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.add_rate_based_on_fraction_of_available_capacity", props=["C24"])
def RateModifier_add_rate_based_on_fraction_of_available_capacity(self):
    return self._fraction_of_available_capacity_to_recirculate is not None


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.add_rate_based_on_given_mass_rate", props=["C24"])
def RateModifier_add_rate_based_on_given_mass_rate(self):
    return self._mass_rate_to_recirculate is not None


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.add_rate", props=["C24"])
def RateModifier_add_rate(self, stream):
    actual_rate = stream.volumetric_rate_m3_per_hour
    additional_rate = 0.0
    if self.add_rate_based_on_given_mass_rate:
        additional_rate += self._mass_rate_to_recirculate / stream.density
        actual_rate += additional_rate
    max_rate = self.get_max_rate()
    min_rate = self.get_min_rate()
    if self.add_rate_based_on_fraction_of_available_capacity:
        available_capacity = max(0, max_rate - actual_rate)
        additional_rate += self._fraction_of_available_capacity_to_recirculate * available_capacity
        actual_rate += additional_rate
    rate_needed_to_reach_minimum_flow = max(0, min_rate - actual_rate)
    if rate_needed_to_reach_minimum_flow > 0:
        additional_rate += rate_needed_to_reach_minimum_flow
        actual_rate += rate_needed_to_reach_minimum_flow
    self._additional_mass_rate = additional_rate * stream.density
    return stream.with_mass_rate(stream.mass_rate_kg_per_h + self._additional_mass_rate)


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.remove_rate", props=["C24"])
def RateModifier_remove_rate(self, stream):
    return stream.with_mass_rate(stream.mass_rate_kg_per_h - self._additional_mass_rate)


@target("libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier.RateModifier.reset", props=["C24"])
def RateModifier_reset(self):
    self._mass_rate_to_recirculate = None
    self._fraction_of_available_capacity_to_recirculate = None


@target("libecalc.common.fixed_speed_pressure_control.FixedSpeedPressureControl", props=["C24"])
class FixedSpeedPressureControlValues:
    UPSTREAM_CHOKE = 'UPSTREAM_CHOKE'
    DOWNSTREAM_CHOKE = 'DOWNSTREAM_CHOKE'
    INDIVIDUAL_ASV_PRESSURE = 'INDIVIDUAL_ASV_PRESSURE'
    INDIVIDUAL_ASV_RATE = 'INDIVIDUAL_ASV_RATE'
    COMMON_ASV = 'COMMON_ASV'


@target("libecalc.common.fixed_speed_pressure_control.InterstagePressureControl.__init__", props=["C24"])
def InterstagePressureControl_init(self, upstream_pressure_control, downstream_pressure_control):
    self.upstream_pressure_control = upstream_pressure_control
    self.downstream_pressure_control = downstream_pressure_control


@target("libecalc.domain.process.core.results.base.Quantity.__len__", props=["C24"])
def Quantity_len(self):
    return len(self.values)


@target("libecalc.domain.process.core.results.compressor.CompressorTrainCommonShaftFailureStatus", props=["C24"])
class CompressorTrainCommonShaftFailureStatusValues:
    NO_FAILURE = 'NO_FAILURE'
    TARGET_DISCHARGE_PRESSURE_TOO_HIGH = 'TARGET_DISCHARGE_PRESSURE_TOO_HIGH'
    TARGET_DISCHARGE_PRESSURE_TOO_LOW = 'TARGET_DISCHARGE_PRESSURE_TOO_LOW'
    TARGET_SUCTION_PRESSURE_TOO_HIGH = 'TARGET_SUCTION_PRESSURE_TOO_HIGH'
    TARGET_SUCTION_PRESSURE_TOO_LOW = 'TARGET_SUCTION_PRESSURE_TOO_LOW'
    TARGET_INTERMEDIATE_PRESSURE_TOO_HIGH = 'TARGET_INTERMEDIATE_PRESSURE_TOO_HIGH'
    TARGET_INTERMEDIATE_PRESSURE_TOO_LOW = 'TARGET_INTERMEDIATE_PRESSURE_TOO_LOW'
    ABOVE_MAXIMUM_FLOW_RATE = 'ABOVE_MAXIMUM_FLOW_RATE'
    BELOW_MINIMUM_FLOW_RATE = 'BELOW_MINIMUM_FLOW_RATE'
    ABOVE_MAXIMUM_POWER = 'ABOVE_MAXIMUM_POWER'
    INVALID_RATE_INPUT = 'INVALID_RATE_INPUT'
    INVALID_SUCTION_PRESSURE_INPUT = 'INVALID_SUCTION_PRESSURE_INPUT'
    INVALID_INTERMEDIATE_PRESSURE_INPUT = 'INVALID_INTERMEDIATE_PRESSURE_INPUT'
    INVALID_DISCHARGE_PRESSURE_INPUT = 'INVALID_DISCHARGE_PRESSURE_INPUT'
    NOT_CALCULATED = 'NOT_CALCULATED'


@target("libecalc.domain.process.core.results.compressor.TargetPressureStatus", props=["C24"])
class TargetPressureStatusValues:
    NOT_CALCULATED = 'NOT_CALCULATED'
    BELOW_TARGET_SUCTION_PRESSURE = 'BELOW_TARGET_SUCTION_PRESSURE'
    ABOVE_TARGET_SUCTION_PRESSURE = 'ABOVE_TARGET_SUCTION_PRESSURE'
    BELOW_TARGET_DISCHARGE_PRESSURE = 'BELOW_TARGET_DISCHARGE_PRESSURE'
    ABOVE_TARGET_DISCHARGE_PRESSURE = 'ABOVE_TARGET_DISCHARGE_PRESSURE'
    BELOW_TARGET_INTERMEDIATE_PRESSURE = 'BELOW_TARGET_INTERMEDIATE_PRESSURE'
    ABOVE_TARGET_INTERMEDIATE_PRESSURE = 'ABOVE_TARGET_INTERMEDIATE_PRESSURE'
    TARGET_PRESSURES_MET = 'TARGET_PRESSURES_MET'


@target("libecalc.domain.process.core.results.compressor.CompressorStreamCondition.__init__", props=["C24"])
def CompressorStreamCondition_init(self, pressure, actual_rate_m3_per_hr, actual_rate_before_asv_m3_per_hr, standard_rate_sm3_per_day, standard_rate_before_asv_sm3_per_day, density_kg_per_m3, kappa, z, temperature_kelvin):
    self.pressure = pressure
    self.actual_rate_m3_per_hr = actual_rate_m3_per_hr
    self.actual_rate_before_asv_m3_per_hr = actual_rate_before_asv_m3_per_hr
    self.standard_rate_sm3_per_day = standard_rate_sm3_per_day
    self.standard_rate_before_asv_sm3_per_day = standard_rate_before_asv_sm3_per_day
    self.density_kg_per_m3 = density_kg_per_m3
    self.kappa = kappa
    self.z = z
    self.temperature_kelvin = temperature_kelvin


@target("libecalc.domain.process.core.results.compressor.CompressorStreamCondition.create_empty", props=["C24"])
def CompressorStreamCondition_create_empty(cls, number_of_periods):
    return cls(pressure=[np.nan] * number_of_periods, actual_rate_m3_per_hr=[np.nan] * number_of_periods, actual_rate_before_asv_m3_per_hr=[np.nan] * number_of_periods, standard_rate_sm3_per_day=[np.nan] * number_of_periods, standard_rate_before_asv_sm3_per_day=[np.nan] * number_of_periods, density_kg_per_m3=[np.nan] * number_of_periods, kappa=[np.nan] * number_of_periods, z=[np.nan] * number_of_periods, temperature_kelvin=[np.nan] * number_of_periods)


@target("libecalc.domain.process.core.results.compressor.CompressorStageResult.__init__", props=["C24"])
def CompressorStageResult_init(self, energy_usage, energy_usage_unit, power, power_unit, mass_rate_kg_per_hr, mass_rate_before_asv_kg_per_hr, inlet_stream_condition, outlet_stream_condition, polytropic_enthalpy_change_kJ_per_kg, polytropic_head_kJ_per_kg, polytropic_efficiency, polytropic_enthalpy_change_before_choke_kJ_per_kg, speed, asv_recirculation_loss_mw, fluid_composition, is_valid, chart_area_flags, rate_has_recirculation, rate_exceeds_maximum, pressure_is_choked, head_exceeds_maximum, chart=None):
    self.energy_usage = energy_usage
    self.energy_usage_unit = energy_usage_unit
    self.power = power
    self.power_unit = power_unit
    self.mass_rate_kg_per_hr = mass_rate_kg_per_hr
    self.mass_rate_before_asv_kg_per_hr = mass_rate_before_asv_kg_per_hr
    self.inlet_stream_condition = inlet_stream_condition
    self.outlet_stream_condition = outlet_stream_condition
    self.polytropic_enthalpy_change_kJ_per_kg = polytropic_enthalpy_change_kJ_per_kg
    self.polytropic_head_kJ_per_kg = polytropic_head_kJ_per_kg
    self.polytropic_efficiency = polytropic_efficiency
    self.polytropic_enthalpy_change_before_choke_kJ_per_kg = polytropic_enthalpy_change_before_choke_kJ_per_kg
    self.speed = speed
    self.asv_recirculation_loss_mw = asv_recirculation_loss_mw
    self.fluid_composition = fluid_composition
    self.is_valid = is_valid
    self.chart_area_flags = chart_area_flags
    self.rate_has_recirculation = rate_has_recirculation
    self.rate_exceeds_maximum = rate_exceeds_maximum
    self.pressure_is_choked = pressure_is_choked
    self.head_exceeds_maximum = head_exceeds_maximum
    self._chart = chart


@target("libecalc.domain.process.core.results.compressor.CompressorStageResult.chart", props=["C24"])
def CompressorStageResult_chart(self):
    return self._chart


@target("libecalc.domain.process.core.results.compressor.CompressorStageResult.__setattr__", props=["C24"])
def CompressorStageResult_setattr(self, name, value):
    if name == 'polytropic_efficiency' and value is not None:
        value = [float(item) if isinstance(item, np.ndarray) and item.size == 1 else item for item in value]
    super().__setattr__(name, value)


@target("libecalc.domain.process.core.results.compressor.CompressorStageResult.create_empty", props=["C24"])
def CompressorStageResult_create_empty(cls, number_of_periods):

    def create_nans():
        return [np.nan] * number_of_periods
    return cls(energy_usage=create_nans(), energy_usage_unit=Unit.NONE, power=create_nans(), power_unit=Unit.MEGA_WATT, mass_rate_kg_per_hr=create_nans(), mass_rate_before_asv_kg_per_hr=create_nans(), inlet_stream_condition=CompressorStreamCondition.create_empty(number_of_periods=number_of_periods), outlet_stream_condition=CompressorStreamCondition.create_empty(number_of_periods=number_of_periods), polytropic_enthalpy_change_kJ_per_kg=create_nans(), polytropic_head_kJ_per_kg=create_nans(), polytropic_efficiency=create_nans(), polytropic_enthalpy_change_before_choke_kJ_per_kg=create_nans(), speed=create_nans(), asv_recirculation_loss_mw=create_nans(), fluid_composition={}, is_valid=[True] * number_of_periods, chart_area_flags=[ChartAreaFlag.NOT_CALCULATED] * number_of_periods, rate_has_recirculation=[False] * number_of_periods, rate_exceeds_maximum=[False] * number_of_periods, pressure_is_choked=[False] * number_of_periods, head_exceeds_maximum=[False] * number_of_periods, chart=None)


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.__init__", props=["C24"])
def CompressorTrainResult_init(self, rate_sm3_day, max_standard_rate, inlet_stream_condition, outlet_stream_condition, stage_results, failure_status, turbine_result, energy_usage, energy_usage_unit, power, power_unit):
    self.rate_sm3_day = rate_sm3_day
    self.max_standard_rate = max_standard_rate
    self.inlet_stream_condition = inlet_stream_condition
    self.outlet_stream_condition = outlet_stream_condition
    self.stage_results = stage_results
    self.failure_status = failure_status
    self._turbine_result = turbine_result
    self._energy_usage = Quantity(values=energy_usage, unit=energy_usage_unit)
    if power is not None:
        self._power = Quantity(values=power, unit=power_unit)
    else:
        self._power = None
    self._requested_discharge_pressure = None
    self._requested_suction_pressure = None


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.rate", props=["C24"])
def CompressorTrainResult_rate(self):
    return self.rate_sm3_day


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.turbine_result", props=["C24"])
def CompressorTrainResult_turbine_result(self):
    return self._turbine_result


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.get_energy_result", props=["C24"])
def CompressorTrainResult_get_energy_result(self):
    return EnergyResult(energy_usage=self._energy_usage, power=self._power, is_valid=self._is_valid)


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult._is_valid", props=["C24"])
def CompressorTrainResult_is_valid(self):
    failure_status_are_valid = [t is CompressorTrainCommonShaftFailureStatus.NO_FAILURE for t in self.failure_status]
    turbine_are_valid = self.turbine_result.get_energy_result().is_valid if self.turbine_result is not None else [True] * len(self._energy_usage)
    stage_results_are_valid = np.all([stage.is_valid for stage in self.stage_results], axis=0) if self.stage_results is not None else [not isnan(x) for x in self._energy_usage.values]
    return (np.asarray(failure_status_are_valid, dtype=bool) & np.asarray(turbine_are_valid, dtype=bool) & np.asarray(stage_results_are_valid, dtype=bool)).tolist()


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.inlet_stream", props=["C24"])
def CompressorTrainResult_inlet_stream(self):
    return self.inlet_stream_condition


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.outlet_stream", props=["C24"])
def CompressorTrainResult_outlet_stream(self):
    return self.outlet_stream_condition


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.mass_rate_kg_per_hr", props=["C24"])
def CompressorTrainResult_mass_rate_kg_per_hr(self):
    return self.stage_results[0].mass_rate_before_asv_kg_per_hr


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.pressure_is_choked", props=["C24"])
def CompressorTrainResult_pressure_is_choked(self):
    return np.any([stage.pressure_is_choked for stage in self.stage_results], axis=0).tolist()


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.recirculation_loss", props=["C24"])
def CompressorTrainResult_recirculation_loss(self):
    return list(elementwise_sum(*[stage.asv_recirculation_loss_mw for stage in self.stage_results]))


@target("libecalc.domain.process.core.results.compressor.CompressorTrainResult.rate_exceeds_maximum", props=["C24"])
def CompressorTrainResult_rate_exceeds_maximum(self):
    return np.any([stage.rate_exceeds_maximum for stage in self.stage_results], axis=0).tolist()


@target("libecalc.domain.process.core.results.generic.EnergyFunctionGenericResult.__init__", props=["C24"])
def EnergyFunctionGenericResult_init(self, energy_usage, energy_usage_unit, power, power_unit, allow_negative_energy_usage=False):
    self._energy_usage = energy_usage
    self._energy_usage_unit = energy_usage_unit
    self._power = power
    self._power_unit = power_unit if power_unit is not None else Unit.MEGA_WATT
    self._allow_negative_energy_usage = allow_negative_energy_usage


@target("libecalc.domain.process.core.results.generic.EnergyFunctionGenericResult.get_energy_result", props=["C24"])
def EnergyFunctionGenericResult_get_energy_result(self):
    return EnergyResult(energy_usage=Quantity(values=self._energy_usage, unit=self._energy_usage_unit), power=Quantity(values=self._power, unit=self._power_unit) if self._power is not None else None, is_valid=self._is_valid)


@target("libecalc.domain.process.core.results.generic.EnergyFunctionGenericResult._is_valid", props=["C24"])
def EnergyFunctionGenericResult_is_valid(self):
    is_valid = ~np.isnan(self._energy_usage)
    if not self._allow_negative_energy_usage:
        is_valid[np.asarray(self._energy_usage) < 0] = False
    return is_valid.tolist()


@target("libecalc.domain.process.core.results.pump.PumpFailureStatus", props=["C24"])
class PumpFailureStatusValues:
    NO_FAILURE = 'NO_FAILURE'
    ABOVE_MAXIMUM_PUMP_RATE = 'ABOVE_MAXIMUM_PUMP_RATE'
    REQUIRED_HEAD_ABOVE_ACTUAL_HEAD = 'REQUIRED_HEAD_ABOVE_ACTUAL_HEAD'
    ABOVE_MAXIMUM_HEAD_AT_RATE = 'ABOVE_MAXIMUM_HEAD_AT_RATE'
    ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE = 'ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE'


@target("libecalc.domain.process.core.results.pump.PumpModelResult.__init__", props=["C24"])
def PumpModelResult_init(self, rate, suction_pressure, discharge_pressure, fluid_density, operational_head, failure_status, energy_usage, energy_usage_unit, power, power_unit):
    self._energy_usage = energy_usage
    self._energy_usage_unit = energy_usage_unit
    self._power = power
    self._power_unit = power_unit if power_unit is not None else Unit.MEGA_WATT
    self.rate = rate
    self.suction_pressure = suction_pressure
    self.discharge_pressure = discharge_pressure
    self.fluid_density = fluid_density
    self.operational_head = operational_head
    self.failure_status = failure_status


@target("libecalc.domain.process.core.results.pump.PumpModelResult.get_energy_result", props=["C24"])
def PumpModelResult_get_energy_result(self):
    return EnergyResult(energy_usage=Quantity(values=self._energy_usage, unit=self._energy_usage_unit), power=Quantity(values=self._power, unit=self._power_unit) if self._power is not None else None, is_valid=self._is_valid)


@target("libecalc.domain.process.core.results.pump.PumpModelResult._is_valid", props=["C24"])
def PumpModelResult_is_valid(self):
    failure_status_valid = [f == PumpFailureStatus.NO_FAILURE for f in self.failure_status]
    return failure_status_valid


@target("libecalc.domain.process.core.results.turbine.TurbineResult.__init__", props=["C24"])
def TurbineResult_init(self, load, efficiency, load_unit, exceeds_maximum_load, energy_usage, energy_usage_unit):
    self._energy_usage = energy_usage
    self._energy_usage_unit = energy_usage_unit
    self._power = load
    self._power_unit = load_unit if load_unit is not None else Unit.MEGA_WATT
    self.efficiency = efficiency
    self.exceeds_maximum_load = exceeds_maximum_load


@target("libecalc.domain.process.core.results.turbine.TurbineResult.get_energy_result", props=["C24"])
def TurbineResult_get_energy_result(self):
    return EnergyResult(energy_usage=Quantity(values=self._energy_usage, unit=self._energy_usage_unit), power=Quantity(values=self._power, unit=self._power_unit) if self._power is not None else None, is_valid=self._is_valid)


@target("libecalc.domain.process.core.results.turbine.TurbineResult._is_valid", props=["C24"])
def TurbineResult_is_valid(self):
    return np.invert(self.exceeds_maximum_load).tolist()
