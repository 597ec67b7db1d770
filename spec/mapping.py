# Reference equations (parsed by the checker, never executed).
import numpy as np
import pandas as pd
from collections.abc import Mapping, Sequence, Set
from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
from libecalc.common.chart_type import ChartType
from libecalc.common.component_type import ComponentType
from libecalc.common.consumption_type import ConsumptionType
from libecalc.common.energy_usage_type import EnergyUsageType
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException, ProcessNonPositivePressureValidationException, ProcessPressureRatioValidationException
from libecalc.common.errors.exceptions import EcalcError, HeaderNotFoundException, InvalidColumnException, InvalidResourceException, ProgrammingError
from libecalc.common.fixed_speed_pressure_control import FixedSpeedPressureControl, InterstagePressureControl
from libecalc.common.graph import Graph
from libecalc.common.temporal_model import InvalidTemporalModel, TemporalModel
from libecalc.common.time_utils import define_time_model_for_period
from libecalc.common.units import Unit
from libecalc.common.utils.ecalc_uuid import ecalc_id_generator
from libecalc.common.utils.rates import RateType
from libecalc.domain.hydrocarbon_export import HydrocarbonExport
from libecalc.domain.infrastructure.emitters.venting_emitter import DirectVentingEmitter, EmissionRate, OilVentingEmitter, OilVolumeRate, VentingEmission, VentingVolume, VentingVolumeEmission
from libecalc.domain.infrastructure.energy_components.asset.asset import Asset
from libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer import ElectricityConsumer
from libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer import FuelConsumerComponent
from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
from libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component import GeneratorSetEnergyComponent
from libecalc.domain.infrastructure.energy_components.installation.installation import InstallationComponent
from libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function import DirectConsumerFunction
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function import ConsumerSystemConsumerFunction
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting import ConsumerSystemOperationalSettingExpressions
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system.types import ConsumerSystemComponent
from libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated import TabularConsumerFunction, TabularEnergyFunction
from libecalc.domain.infrastructure.energy_components.turbine import Turbine
from libecalc.domain.process.compressor.core.base import CompressorWithTurbineModel
from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
from libecalc.domain.process.compressor.core.train.base import calculate_pressure_ratio_per_stage
from libecalc.domain.process.compressor.core.train.compressor_train_common_shaft import CompressorTrainCommonShaft
from libecalc.domain.process.compressor.core.train.simplified_train.simplified_train import CompressorTrainSimplified
from libecalc.domain.process.compressor.core.train.stage import CompressorTrainStage
from libecalc.domain.process.compressor.core.train.utils.enthalpy_calculations import calculate_enthalpy_change_head_iteration
from libecalc.domain.process.entities.process_units.legacy_compressor.legacy_compressor import LegacyCompressor
from libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer import LegacyMixer
from libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter import LegacySplitter
from libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier import RateModifier
from libecalc.domain.process.evaluation_input import CompressorEvaluationInput, CompressorSampledEvaluationInput, PumpEvaluationInput
from libecalc.domain.process.value_objects.chart import ChartCurve
from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator
from libecalc.domain.regularity import Regularity
from libecalc.dto import Emission, FuelType
from libecalc.dto.types import ChartControlMarginUnit, ChartEfficiencyUnit, ChartPolytropicHeadUnit, ChartRateUnit
from libecalc.ecalc_model.ecalc_event import EcalcEvent, EcalcEventType, ProcessEvent, ProcessEventType
from libecalc.ecalc_model.process_simulation import AntiSurgeConfig, CommonStreamDistributionConfig, CommonStreamSettings, Constraint, IndividualStreamDistributionConfig, PressureControlConfig, ProcessProblem, ProcessProblemSection, ProcessSimulation
from libecalc.ecalc_model.time_series_configuration import TimeSeriesMixerConfiguration, TimeSeriesPressureDropperConfiguration, TimeSeriesSplitterConfiguration, TimeSeriesTemperatureSetterConfiguration
from libecalc.ecalc_model.time_series_fluid_model import TimeSeriesFluidComposition, TimeSeriesFluidModel
from libecalc.ecalc_model.time_series_stream import TimeSeriesStream
from libecalc.expression import Expression
from libecalc.expression.expression import InvalidExpressionError
from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
from libecalc.presentation.yaml.definition_resolver import _get_item_type, _is_definition_reference_union, _lookup_definition, _resolve_value, resolve_definitions
from libecalc.presentation.yaml.domain.default_process_service import DefaultProcessService
from libecalc.presentation.yaml.domain.ecalc_components import CompressorProcessSystemComponent, CompressorSampledComponent, PumpProcessSystemComponent
from libecalc.presentation.yaml.domain.energy_container_energy_model_builder import EnergyContainerEnergyModel, EnergyContainerEnergyModelBuilder
from libecalc.presentation.yaml.domain.expression_time_series_cable_loss import ExpressionTimeSeriesCableLoss
from libecalc.presentation.yaml.domain.expression_time_series_flow_rate import ExpressionTimeSeriesFlowRate
from libecalc.presentation.yaml.domain.expression_time_series_fluid_density import ExpressionTimeSeriesFluidDensity
from libecalc.presentation.yaml.domain.expression_time_series_max_usage_from_shore import ExpressionTimeSeriesMaxUsageFromShore
from libecalc.presentation.yaml.domain.expression_time_series_power import ExpressionTimeSeriesPower
from libecalc.presentation.yaml.domain.expression_time_series_power_loss_factor import ExpressionTimeSeriesPowerLossFactor
from libecalc.presentation.yaml.domain.expression_time_series_pressure import ExpressionTimeSeriesPressure
from libecalc.presentation.yaml.domain.expression_time_series_variable import ExpressionTimeSeriesVariable
from libecalc.presentation.yaml.domain.reference_service import InvalidReferenceException
from libecalc.presentation.yaml.domain.time_series_expression import TimeSeriesExpression
from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
from libecalc.presentation.yaml.file_context import FileContext, FileMark
from libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data import GenericFromInputChartData
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData, _all_numbers_equal
from libecalc.presentation.yaml.mappers.component_mapper import Defaults, MissingFuelReference, _get_component_type, _get_model_type, get_location_from_yaml_path
from libecalc.presentation.yaml.mappers.consumer_function_mapper import CompressorModelMapper, ConsumerFunctionMapper, InvalidConsumptionType, InvalidEnergyUsageModelException, PumpModelMapper, TabularModelMapper, _all_equal, _is_sampled_compressor, _map_condition, handle_condition_list, validate_pressures
from libecalc.presentation.yaml.mappers.facility_input import _create_pump_chart_variable_speed_dto_model_data, _create_pump_model_single_speed_dto_model_data, _get_float_column_or_none
from libecalc.presentation.yaml.mappers.fluid_mapper import _create_time_series_fluid_model, composition_fluid_definition_mapper, composition_fluid_model_mapper, fluid_definition_mapper, predefined_fluid_definition_mapper, predefined_fluid_model_mapper
from libecalc.presentation.yaml.mappers.model import InvalidChartResourceException, _generic_from_design_point_compressor_chart_mapper, _pressure_control_mapper, map_yaml_to_fixed_speed_pressure_control, single_speed_compressor_chart_mapper, variable_speed_compressor_chart_mapper
from libecalc.presentation.yaml.mappers.process.build_sections import ProcessSectionBuilder
from libecalc.presentation.yaml.mappers.process.mapped_section_validator import MappedSectionValidator
from libecalc.presentation.yaml.mappers.process.process_partitioner import MappedSection, ProcessPartitioner
from libecalc.presentation.yaml.mappers.simplified_train_mapping_utils import CompressorOperationalTimeSeries, calculate_number_of_stages
from libecalc.presentation.yaml.mappers.utils import convert_control_margin_to_fraction, convert_efficiency_to_fraction, convert_head_to_joule_per_kg, convert_rate_to_am3_per_hour, convert_temperature_to_kelvin
from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException
from libecalc.presentation.yaml.validation_errors import Location, ModelValidationError
from libecalc.presentation.yaml.yaml_keywords import EcalcYamlKeywords
from libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model import YamlEnergyUsageModelCompressor, YamlEnergyUsageModelCompressorSystem, YamlEnergyUsageModelCompressorTrainMultipleStreams, YamlEnergyUsageModelDirectElectricity, YamlEnergyUsageModelDirectFuel, YamlEnergyUsageModelPump, YamlEnergyUsageModelPumpSystem, YamlEnergyUsageModelTabulated
from libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model.yaml_energy_usage_model_direct import ConsumptionRateType
from libecalc.presentation.yaml.yaml_types.components.legacy.yaml_electricity_consumer import YamlElectricityConsumer
from libecalc.presentation.yaml.yaml_types.components.legacy.yaml_fuel_consumer import YamlFuelConsumer
from libecalc.presentation.yaml.yaml_types.components.yaml_generator_set import YamlGeneratorSet
from libecalc.presentation.yaml.yaml_types.components.yaml_installation import YamlInstallation
from libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter import YamlDirectTypeEmitter, YamlOilTypeEmitter
from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model import YamlCompressorTabularModel, YamlGeneratorSetModel, YamlPumpChartSingleSpeed, YamlPumpChartVariableSpeed, YamlTabularModel
from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model_type import YamlFacilityModelType
from libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type import YamlFuelType
from libecalc.presentation.yaml.yaml_types.models import YamlCompressorChart, YamlCompressorWithTurbine, YamlFluidModel, YamlTurbine
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart import YamlGenericFromDesignPointChart, YamlSingleSpeedChart, YamlVariableSpeedChart
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_stages import YamlControlMarginUnits, YamlUnknownCompressorStages
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains import YamlMultipleStreamsStreamIngoing, YamlMultipleStreamsStreamOutgoing, YamlSimplifiedVariableSpeedCompressorTrain, YamlSingleSpeedCompressorTrain, YamlVariableSpeedCompressorTrain, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
from libecalc.presentation.yaml.yaml_types.models.yaml_enums import YamlModelType, YamlPressureControl
from libecalc.presentation.yaml.yaml_types.models.yaml_fluid import YamlCompositionFluidModel, YamlPredefinedFluidModel
from libecalc.presentation.yaml.yaml_types.process.yaml_fluid_definitions import YamlCompositionFluidDefinition, YamlFluidDefinition, YamlPredefinedFluidDefinition
from libecalc.presentation.yaml.yaml_types.process.yaml_process_pipeline import YamlProcessPipeline
from libecalc.presentation.yaml.yaml_types.process.yaml_process_references import DefinitionReference
from libecalc.presentation.yaml.yaml_types.process.yaml_process_units import YamlCompressorDefinition, YamlLiquidRemoverDefinition, YamlMixerDefinition, YamlPressureDropperDefinition, YamlProcessUnitDefinition, YamlSplitterDefinition, YamlTemperatureSetterDefinition
from libecalc.presentation.yaml.yaml_types.streams.yaml_inlet_stream import YamlInletStream
from libecalc.presentation.yaml.yaml_types.yaml_data_or_file import YamlFile
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from libecalc.process.process_pipeline.process_pipeline import PipelineEvent, PipelineEventAction, PipelineEventChangeType, ProcessPipeline, ProcessPipelineSection
from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
from libecalc.process.process_solver.section_assembly import assemble_process_section
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.compressor import Compressor
from libecalc.process.process_units.inlet import Inlet
from libecalc.process.process_units.liquid_remover import LiquidRemover
from libecalc.process.process_units.mixer import Mixer
from libecalc.process.process_units.outlet import Outlet
from libecalc.process.process_units.pressure_dropper import PressureDropper
from libecalc.process.process_units.splitter import Splitter
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.pump.liquid_stream import LiquidStream
from libecalc.process.pump.pump import Pump
from libecalc.process.pump.pump_process_simulation import PumpOperatingInput, PumpProcessSimulation
from libecalc.process.shaft import SingleSpeedShaft, VariableSpeedShaft
from libecalc.process.stream_distribution.common_stream_distribution import Overflow
from pydantic import BaseModel, ValidationError
from typing import Any, Union, assert_never, get_args, get_origin
from uuid import uuid4
YAML_UNIT_MAPPING = {EcalcYamlKeywords.consumer_chart_efficiency_unit_factor: Unit.FRACTION, EcalcYamlKeywords.consumer_chart_efficiency_unit_percentage: Unit.PERCENTAGE, EcalcYamlKeywords.consumer_chart_head_unit_kj_per_kg: Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG, EcalcYamlKeywords.consumer_chart_head_unit_joule_per_kg: Unit.POLYTROPIC_HEAD_JOULE_PER_KG, EcalcYamlKeywords.consumer_chart_head_unit_m: Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN, EcalcYamlKeywords.consumer_chart_rate_unit_actual_volume_rate: Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR, EcalcYamlKeywords.models_type_compressor_train_stage_control_margin_unit_factor: Unit.FRACTION, EcalcYamlKeywords.models_type_compressor_train_stage_control_margin_unit_percentage: Unit.PERCENTAGE}
_eos_model_mapper = {EcalcYamlKeywords.models_type_fluid_eos_model_pr: EoSModel.PR, EcalcYamlKeywords.models_type_fluid_eos_model_srk: EoSModel.SRK, EcalcYamlKeywords.models_type_fluid_eos_model_gerg_pr: EoSModel.GERG_PR, EcalcYamlKeywords.models_type_fluid_eos_model_gerg_srk: EoSModel.GERG_SRK}
_PRESSURE_CONTROL_REQUIRES_ANTI_SURGE = {'COMMON_ASV': AntiSurgeType.COMMON_ASV, 'INDIVIDUAL_ASV_RATE': AntiSurgeType.INDIVIDUAL_ASV, 'INDIVIDUAL_ASV_PRESSURE': AntiSurgeType.INDIVIDUAL_ASV}
_model_parsing_order_map = {YamlModelType.FLUID: 0, YamlModelType.COMPRESSOR_CHART: 0, YamlModelType.TURBINE: 0, YamlModelType.SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.VARIABLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.SINGLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES: 1, YamlModelType.COMPRESSOR_WITH_TURBINE: 2}
YamlCompressorModel = YamlSimplifiedVariableSpeedCompressorTrain | YamlVariableSpeedCompressorTrain | YamlSingleSpeedCompressorTrain | YamlCompressorWithTurbine | YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures | YamlCompressorTabularModel


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.__init__", props=["C25"])
def GenericFromDesignPointChartData_init(self, curves, design_head=None, design_rate=None, origin_of_chart_data=ChartType.GENERIC_FROM_DESIGN_POINT):
    self._curves = curves
    self._design_head = design_head
    self._design_rate = design_rate
    self._origin_of_chart_data = origin_of_chart_data


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.origin_of_chart_data", props=["C25"])
def GenericFromDesignPointChartData_origin_of_chart_data(self):
    return self._origin_of_chart_data


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.design_head", props=["C25"])
def GenericFromDesignPointChartData_design_head(self):
    return self._design_head


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.design_rate", props=["C25"])
def GenericFromDesignPointChartData_design_rate(self):
    return self._design_rate


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.get_original_curves", props=["C25"])
def GenericFromDesignPointChartData_get_original_curves(self):
    return self._curves


@target("libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data.GenericFromDesignPointChartData.get_adjusted_curves", props=["C25"])
def GenericFromDesignPointChartData_get_adjusted_curves(self):
    return self.get_original_curves()


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.__init__", props=["C25"])
def GenericFromInputChartData_init(self, fluid_model, fluid_service, standard_rates, inlet_temperature, inlet_pressure, polytropic_efficiency, outlet_pressure):
    self._fluid_model = fluid_model
    self._fluid_service = fluid_service
    self._standard_rates = standard_rates
    self._inlet_pressure = inlet_pressure
    self._inlet_temperature = inlet_temperature
    self._polytropic_efficiency = polytropic_efficiency
    self._outlet_pressure = outlet_pressure


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData._chart", props=["C25"])
def GenericFromInputChartData_chart(self):
    inlet_streams = [self._fluid_service.create_stream_from_standard_rate(fluid_model=self._fluid_model, pressure_bara=inlet_pressure, temperature_kelvin=self._inlet_temperature, standard_rate_m3_per_day=inlet_rate) for inlet_rate, inlet_pressure in zip(self._standard_rates, self._inlet_pressure)]

    def efficiency_as_function_of_rate_and_head(rates, heads):
        return np.full_like(rates, fill_value=self._polytropic_efficiency, dtype=float)
    polytropic_enthalpy_change_joule_per_kg, polytropic_efficiency = calculate_enthalpy_change_head_iteration(inlet_streams=inlet_streams, outlet_pressure=np.asarray(self._outlet_pressure), polytropic_efficiency_vs_rate_and_head_function=efficiency_as_function_of_rate_and_head, fluid_service=self._fluid_service)
    head_joule_per_kg = polytropic_enthalpy_change_joule_per_kg * polytropic_efficiency
    inlet_actual_rate_m3_per_hour = np.asarray([stream.volumetric_rate_m3_per_hour for stream in inlet_streams])
    actual_rates_list = inlet_actual_rate_m3_per_hour.astype(float).tolist()
    if isinstance(head_joule_per_kg, np.ndarray):
        heads_list = head_joule_per_kg.astype(float).tolist()
    else:
        heads_list = [float(head_joule_per_kg)]
    return CompressorChartCreator.from_rate_and_head_values(actual_volume_rates_m3_per_hour=actual_rates_list, heads_joule_per_kg=heads_list, polytropic_efficiency=self._polytropic_efficiency)


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.get_original_curves", props=["C25"])
def GenericFromInputChartData_get_original_curves(self):
    return self._chart.get_original_curves()


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.get_adjusted_curves", props=["C25"])
def GenericFromInputChartData_get_adjusted_curves(self):
    return self.get_original_curves()


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.origin_of_chart_data", props=["C25"])
def GenericFromInputChartData_origin_of_chart_data(self):
    return ChartType.GENERIC_FROM_INPUT


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.design_head", props=["C25"])
def GenericFromInputChartData_design_head(self):
    return self._chart.design_head


@target("libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data.GenericFromInputChartData.design_rate", props=["C25"])
def GenericFromInputChartData_design_rate(self):
    return self._chart.design_rate


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data._all_numbers_equal", props=["C25"])
def f_all_numbers_equal(values):
    return len(set(values)) == 1


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.__init__", props=["C25"])
def UserDefinedChartData_init(self, curves, control_margin):
    self._curves = sorted(curves, key=lambda x: x.speed)
    self._control_margin = control_margin
    self._origin_of_chart_data = ChartType.SINGLE_SPEED if len(curves) == 1 else ChartType.VARIABLE_SPEED


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.origin_of_chart_data", props=["C25"])
def UserDefinedChartData_origin_of_chart_data(self):
    return self._origin_of_chart_data


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.control_margin", props=["C25"])
def UserDefinedChartData_control_margin(self):
    return self._control_margin


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData._adjusted_curves", props=["C25"])
def UserDefinedChartData_adjusted_curves(self):
    return [curve.adjust_for_control_margin(self._control_margin) for curve in self._curves]


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData._original_curves", props=["C25"])
def UserDefinedChartData_original_curves(self):
    return [curve.deep_copy() for curve in self._curves]


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.get_original_curves", props=["C25"])
def UserDefinedChartData_get_original_curves(self):
    return self._original_curves


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.get_adjusted_curves", props=["C25"])
def UserDefinedChartData_get_adjusted_curves(self):
    return self._adjusted_curves


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.from_resource", props=["C25"])
def UserDefinedChartData_from_resource(cls, resource, units, is_single_speed, control_margin=None):
    rate_unit = YAML_UNIT_MAPPING[units.rate]
    head_unit = YAML_UNIT_MAPPING[units.head]
    efficiency_unit = YAML_UNIT_MAPPING[units.efficiency]
    if is_single_speed:
        try:
            speed_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_speed)
            if not _all_numbers_equal(speed_values):
                raise InvalidColumnException(header=EcalcYamlKeywords.consumer_chart_speed, message='All speeds should be equal when creating a single-speed chart.')
            speed = speed_values[0]
        except HeaderNotFoundException:
            speed = 1
        efficiency_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_efficiency)
        rate_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_rate)
        head_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_head)
        curves = [ChartCurve(speed_rpm=speed, rate_actual_m3_hour=convert_rate_to_am3_per_hour(rate_values, rate_unit), polytropic_head_joule_per_kg=convert_head_to_joule_per_kg(head_values, head_unit), efficiency_fraction=convert_efficiency_to_fraction(efficiency_values, efficiency_unit))]
    else:
        resource_headers = resource.get_headers()
        if 'SPEED' not in resource_headers:
            raise InvalidColumnException(message='Resource is missing SPEED header!', header='SPEED')
        resource_data = []
        for header in resource_headers:
            column = resource.get_float_column(header)
            resource_data.append(column)
        df = pd.DataFrame(data=resource_data, index=resource_headers).transpose().astype(float)
        grouped_by_speed = df.groupby(EcalcYamlKeywords.consumer_chart_speed, sort=False)
        curves = [ChartCurve(speed_rpm=group, rate_actual_m3_hour=convert_rate_to_am3_per_hour(list(grouped_by_speed.get_group(group)[EcalcYamlKeywords.consumer_chart_rate]), rate_unit), polytropic_head_joule_per_kg=convert_head_to_joule_per_kg(list(grouped_by_speed.get_group(group)[EcalcYamlKeywords.consumer_chart_head]), head_unit), efficiency_fraction=convert_efficiency_to_fraction(list(grouped_by_speed.get_group(group)[EcalcYamlKeywords.consumer_chart_efficiency]), efficiency_unit)) for group in grouped_by_speed.groups]
    return cls(curves=curves, control_margin=control_margin)


@target("libecalc.presentation.yaml.mappers.charts.user_defined_chart_data.UserDefinedChartData.from_yaml_curves", props=["C25"])
def UserDefinedChartData_from_yaml_curves(cls, curves, units, control_margin=None):
    rate_unit = YAML_UNIT_MAPPING[units.rate]
    head_unit = YAML_UNIT_MAPPING[units.head]
    efficiency_unit = YAML_UNIT_MAPPING[units.efficiency]
    return cls(curves=[ChartCurve(speed_rpm=curve.speed, rate_actual_m3_hour=convert_rate_to_am3_per_hour(curve.rate, rate_unit), polytropic_head_joule_per_kg=convert_head_to_joule_per_kg(curve.head, head_unit), efficiency_fraction=convert_efficiency_to_fraction(curve.efficiency, efficiency_unit)) for curve in curves], control_margin=control_margin)


@target("libecalc.presentation.yaml.mappers.component_mapper.get_location_from_yaml_path", props=["C25"])
def f_get_location_from_yaml_path(yaml_path, mapping_context):
    location_keys = []
    current_path = YamlPath()
    for key in yaml_path.keys:
        current_path = current_path.append(key)
        if isinstance(key, int):
            location_keys.append(mapping_context.get_component_name_from_yaml_path(current_path) or key)
        else:
            location_keys.append(key)
    return Location(keys=location_keys)


@target("libecalc.presentation.yaml.mappers.component_mapper._get_model_type", props=["C25"])
def f_get_model_type(model):
    if isinstance(model, YamlEnergyUsageModelDirectElectricity | YamlEnergyUsageModelDirectFuel):
        return ComponentType.GENERIC
    elif isinstance(model, YamlEnergyUsageModelCompressor):
        return ComponentType.COMPRESSOR
    elif isinstance(model, YamlEnergyUsageModelPump):
        return ComponentType.PUMP
    elif isinstance(model, YamlEnergyUsageModelCompressorSystem):
        return ComponentType.COMPRESSOR_SYSTEM
    elif isinstance(model, YamlEnergyUsageModelPumpSystem):
        return ComponentType.PUMP_SYSTEM
    elif isinstance(model, YamlEnergyUsageModelTabulated):
        return ComponentType.GENERIC
    elif isinstance(model, YamlEnergyUsageModelCompressorTrainMultipleStreams):
        return ComponentType.COMPRESSOR
    else:
        return assert_never(model)


@target("libecalc.presentation.yaml.mappers.component_mapper._get_component_type", props=["C25"])
def f_get_component_type(energy_usage_models):
    if not isinstance(energy_usage_models, dict):
        models = [energy_usage_models]
    else:
        models = energy_usage_models.values()
    energy_usage_model_types = set()
    for model in models:
        energy_usage_model_types.add(_get_model_type(model))
    if len(energy_usage_model_types) == 1:
        return energy_usage_model_types.pop()
    return ComponentType.GENERIC


@target("libecalc.presentation.yaml.mappers.component_mapper.MissingFuelReference.__init__", props=["C25"])
def MissingFuelReference_init(self):
    super().__init__('Missing fuel reference')


@target("libecalc.presentation.yaml.mappers.component_mapper.Defaults", props=["C25"])
class DefaultsValues:
    regularity = None
    fuel = None


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.__init__", props=["C25"])
def EcalcModelMapper_init(self, resources, references, target_period, expression_evaluator, mapping_context, configuration):
    self._resources = resources
    self._references = references
    self._target_period = target_period
    self._expression_evaluator = expression_evaluator
    self._mapping_context = mapping_context
    self._configuration = configuration


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper._create_error", props=["C25"])
def EcalcModelMapper_create_error(self, message, specific_path):
    file_context = self._configuration.get_file_context(specific_path.keys)
    return ModelValidationError(message=message, location=get_location_from_yaml_path(specific_path, mapping_context=self._mapping_context), file_context=file_context)


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper._create_reference_error", props=["C25"])
def EcalcModelMapper_create_reference_error(self, message, reference, key=None):
    yaml_path = self._references.get_yaml_path(reference)
    location_keys = [*yaml_path.keys[:-1], reference]
    if key is not None:
        key_path = yaml_path.append(key)
        location_keys.append(key)
    else:
        key_path = yaml_path
    file_context = self._configuration.get_file_context(key_path.keys)
    return ModelValidationError(message=message, location=Location(keys=location_keys), name=reference, file_context=file_context)


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper._get_resource", props=["C25"])
def EcalcModelMapper_get_resource(self, resource_name, reference):
    resource = self._resources.get(resource_name)
    if resource is None:
        raise ModelValidationException(errors=[self._create_reference_error(message=f"Unable to find resource '{resource_name}'", reference=reference, key='FILE')])
    return resource


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper._resolve_fuel", props=["C25"])
def EcalcModelMapper_resolve_fuel(self, consumer_fuel, default_fuel):
    fuel = consumer_fuel or default_fuel
    if fuel is None:
        raise MissingFuelReference()
    time_adjusted_fuel = define_time_model_for_period(fuel, target_period=self._target_period)
    temporal_fuel_model = {}
    for period, fuel in time_adjusted_fuel.items():
        resolved_fuel = self._references.get_fuel_reference(fuel)
        yaml_path = self._references.get_yaml_path(fuel)
        fuel_id = uuid.uuid4()
        self._mapping_context.register_yaml_component(yaml_path=yaml_path, yaml_component=YamlComponent(id=fuel_id, name=resolved_fuel.name, category=resolved_fuel.category))
        try:
            parsed_fuel = FuelType(id=fuel_id, name=resolved_fuel.name, emissions=[Emission(name=emission.name, factor=emission.factor) for emission in resolved_fuel.emissions])
        except ValidationError as e:
            raise ModelValidationException.from_pydantic(e, file_context=self._configuration.get_file_context(yaml_path.keys))
        except (InvalidExpressionError, EcalcValidationException) as e:
            raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path)])
        temporal_fuel_model[period] = parsed_fuel
    return temporal_fuel_model


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper._create_generator_set_model", props=["C25"])
def EcalcModelMapper_create_generator_set_model(self, reference):
    model = self._references.get_generator_set_model(reference)
    resource = self._get_resource(model.file, reference)
    try:
        return GeneratorSetModel(name=model.name, resource=resource)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_reference_error(message=str(e), reference=reference)])


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.map_generator_set", props=["C25"])
def EcalcModelMapper_map_generator_set(self, data, id, yaml_path, defaults):
    fuel_yaml_path = yaml_path.append('fuel')
    try:
        fuel = TemporalModel(self._resolve_fuel(data.fuel, defaults.fuel))
    except (InvalidReferenceException, MissingFuelReference, InvalidTemporalModel) as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=fuel_yaml_path)])
    generator_set_model_data = define_time_model_for_period(data.electricity2fuel, target_period=self._target_period)
    try:
        generator_set_model = TemporalModel({start_time: self._create_generator_set_model(model_reference) for start_time, model_reference in generator_set_model_data.items()})
    except (InvalidReferenceException, InvalidTemporalModel, EcalcValidationException) as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path.append('ELECTRICITY2FUEL'))])
    consumers_yaml_path = yaml_path.append('CONSUMERS')
    consumers = []
    for consumer_index, consumer in enumerate(data.consumers):
        consumer_yaml_path = consumers_yaml_path.append(consumer_index)
        consumer_id = uuid.uuid4()
        parsed_consumer = self.map_yaml_component(consumer, id=consumer_id, yaml_path=consumer_yaml_path, parent=id, defaults=defaults)
        if parsed_consumer is None:
            continue
        consumers.append(parsed_consumer)
    try:
        category_model = TemporalModel.create(data.category, target_period=self._target_period)
        if data.cable_loss and category_model is not None:
            cable_loss = ExpressionTimeSeriesCableLoss(time_series_expression=TimeSeriesExpression(expression=data.cable_loss, expression_evaluator=self._expression_evaluator), category=category_model)
        else:
            cable_loss = None
    except (InvalidExpressionError, EcalcValidationException) as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path.append('CABLE_LOSS'))])
    try:
        max_usage_from_shore = ExpressionTimeSeriesMaxUsageFromShore(TimeSeriesExpression(expression=data.max_usage_from_shore, expression_evaluator=self._expression_evaluator)) if data.max_usage_from_shore else None
    except (InvalidExpressionError, EcalcValidationException) as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path.append('MAX_USAGE_FROM_SHORE'))])
    try:
        return GeneratorSetEnergyComponent(id=id, name=data.name, fuel=fuel, regularity=defaults.regularity, generator_set_model=generator_set_model, consumers=consumers, cable_loss=cable_loss, max_usage_from_shore=max_usage_from_shore, component_type=ComponentType.GENERATOR_SET, expression_evaluator=self._expression_evaluator)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path)])


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.map_installation", props=["C25"], modular=True)
def EcalcModelMapper_map_installation(self, data, id, yaml_path, defaults=None):
    try:
        regularity = Regularity(expression_input=data.regularity, target_period=self._target_period, expression_evaluator=self._expression_evaluator)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(message=e.message, specific_path=yaml_path.append('regularity'))])
    defaults = Defaults(fuel=data.fuel, regularity=regularity)
    try:
        hydrocarbon_export = HydrocarbonExport(expression_input=data.hydrocarbon_export, expression_evaluator=self._expression_evaluator, regularity=regularity, target_period=self._target_period)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(message=e.message, specific_path=yaml_path.append('HCEXPORT'))])
    generator_sets_yaml_path = yaml_path.append('GENERATORSETS')
    generator_sets = []
    for generator_set_index, generator_set in enumerate(data.generator_sets or []):
        generator_set_yaml_path = generator_sets_yaml_path.append(generator_set_index)
        generator_set_id = uuid.uuid4()
        parsed_generator_set = self.map_yaml_component(generator_set, id=generator_set_id, yaml_path=generator_set_yaml_path, parent=id, defaults=defaults)
        generator_sets.append(parsed_generator_set)
    fuel_consumers_yaml_path = yaml_path.append('FUELCONSUMERS')
    fuel_consumers = []
    for fuel_consumer_index, fuel_consumer in enumerate(data.fuel_consumers or []):
        fuel_consumer_yaml_path = fuel_consumers_yaml_path.append(fuel_consumer_index)
        fuel_consumer_id = uuid.uuid4()
        parsed_fuel_consumer = self.map_yaml_component(fuel_consumer, id=fuel_consumer_id, yaml_path=fuel_consumer_yaml_path, parent=id, defaults=defaults)
        if parsed_fuel_consumer is None:
            continue
        fuel_consumers.append(parsed_fuel_consumer)
    venting_emitters_yaml_path = yaml_path.append('VENTING_EMITTERS')
    venting_emitters = []
    for venting_emitter_index, venting_emitter in enumerate(data.venting_emitters or []):
        venting_emitter_yaml_path = venting_emitters_yaml_path.append(venting_emitter_index)
        venting_emitter_id = uuid.uuid4()
        parsed_venting_emitter = self.map_yaml_component(venting_emitter, id=venting_emitter_id, yaml_path=venting_emitter_yaml_path, parent=id, defaults=defaults)
        venting_emitters.append(parsed_venting_emitter)
    try:
        return InstallationComponent(id=id, name=data.name, regularity=regularity, hydrocarbon_export=hydrocarbon_export, fuel_consumers=[*generator_sets, *fuel_consumers], venting_emitters=venting_emitters, expression_evaluator=self._expression_evaluator)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path)])


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.map_consumer", props=["C25"])
def EcalcModelMapper_map_consumer(self, data, id, yaml_path, defaults):
    energy_usage_model_mapper = ConsumerFunctionMapper(configuration=self._configuration, resources=self._resources, references=self._references, target_period=self._target_period, expression_evaluator=self._expression_evaluator, regularity=defaults.regularity, energy_usage_model=data.energy_usage_model, mapping_context=self._mapping_context, consumer_id=id)
    consumes = ConsumptionType.ELECTRICITY if isinstance(data, YamlElectricityConsumer) else ConsumptionType.FUEL
    try:
        energy_usage_model = energy_usage_model_mapper.from_yaml_to_dto(consumes=consumes)
        if energy_usage_model is None:
            return None
    except InvalidEnergyUsageModelException as e:
        energy_usage_model_yaml_path = yaml_path.append('ENERGY_USAGE_MODEL')
        specific_model_path = energy_usage_model_yaml_path.append(e.period.start)
        raise ModelValidationException(errors=[self._create_error(message=e.message, specific_path=specific_model_path)])
    except InvalidTemporalModel as e:
        raise ModelValidationException(errors=[self._create_error(message=str(e), specific_path=yaml_path.append('ENERGY_USAGE_MODEL'))])
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), specific_path=yaml_path.append('ENERGY_USAGE_MODEL'))])
    if consumes == ConsumptionType.FUEL:
        consumer_fuel = data.fuel
        fuel_yaml_path = yaml_path.append('fuel')
        try:
            fuel = TemporalModel(self._resolve_fuel(consumer_fuel, defaults.fuel))
        except (InvalidReferenceException, MissingFuelReference, InvalidTemporalModel) as e:
            raise ModelValidationException(errors=[self._create_error(message=str(e), specific_path=fuel_yaml_path)])
        try:
            return FuelConsumerComponent(id=id, name=data.name, regularity=defaults.regularity, fuel=fuel, energy_usage_model=energy_usage_model, component_type=_get_component_type(data.energy_usage_model), expression_evaluator=self._expression_evaluator)
        except EcalcValidationException as e:
            raise ModelValidationException(errors=[self._create_error(message=str(e), specific_path=yaml_path)])
    else:
        try:
            return ElectricityConsumer(id=id, name=data.name, regularity=defaults.regularity, energy_usage_model=energy_usage_model, component_type=_get_component_type(data.energy_usage_model), consumes=consumes, expression_evaluator=self._expression_evaluator)
        except EcalcValidationException as e:
            raise ModelValidationException(errors=[self._create_error(message=str(e), specific_path=yaml_path)])


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.map_venting_emitter", props=["C25"])
def EcalcModelMapper_map_venting_emitter(self, data, id, yaml_path, defaults):
    try:
        if isinstance(data, YamlDirectTypeEmitter):
            emissions = [VentingEmission(name=emission.name, emission_rate=EmissionRate(time_series_expression=TimeSeriesExpression(expression=emission.rate.value, expression_evaluator=self._expression_evaluator, condition=emission.rate.condition), unit=emission.rate.unit.to_unit(), rate_type=emission.rate.type, regularity=defaults.regularity)) for emission in data.emissions]
            return DirectVentingEmitter(id=id, name=data.name, component_type=data.component_type, emitter_type=data.type, emissions=emissions, regularity=defaults.regularity)
        elif isinstance(data, YamlOilTypeEmitter):
            return OilVentingEmitter(id=id, name=data.name, component_type=data.component_type, emitter_type=data.type, volume=VentingVolume(oil_volume_rate=OilVolumeRate(time_series_expression=TimeSeriesExpression(expression=data.volume.rate.value, expression_evaluator=self._expression_evaluator, condition=data.volume.rate.condition), unit=data.volume.rate.unit.to_unit(), rate_type=data.volume.rate.type, regularity=defaults.regularity), emissions=[VentingVolumeEmission(name=emission.name, emission_factor=emission.emission_factor) for emission in data.volume.emissions]), regularity=defaults.regularity)
        else:
            return assert_never(data)
    except (InvalidExpressionError, EcalcValidationException) as e:
        raise ModelValidationException(errors=[self._create_error(message=str(e), specific_path=yaml_path)])


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.map_yaml_component", props=["C25"])
def EcalcModelMapper_map_yaml_component(self, data, id, yaml_path, parent, defaults=None):
    self._mapping_context.register_yaml_component(yaml_path=yaml_path, yaml_component=YamlComponent(id=id, name=data.name, category=data.category))
    if not isinstance(data, YamlInstallation):
        self._mapping_context.register_regularity(id, defaults.regularity)
    if isinstance(data, YamlInstallation):
        container = self.map_installation(data, id=id, yaml_path=yaml_path, defaults=defaults)
    elif isinstance(data, YamlGeneratorSet):
        container = self.map_generator_set(data, id=id, yaml_path=yaml_path, defaults=defaults)
    elif isinstance(data, YamlElectricityConsumer | YamlFuelConsumer):
        container = self.map_consumer(data, id=id, yaml_path=yaml_path, defaults=defaults)
    elif isinstance(data, YamlDirectTypeEmitter | YamlOilTypeEmitter):
        container = self.map_venting_emitter(data, id=id, yaml_path=yaml_path, defaults=defaults)
    else:
        assert_never(data)
    if container is None:
        return None
    energy_container_energy_model_builder = self._mapping_context.get_energy_container_energy_model_builder()
    energy_container_energy_model_builder.register_energy_container(container_id=id, parent_id=parent, energy_container=container)
    return container


@target("libecalc.presentation.yaml.mappers.component_mapper.EcalcModelMapper.from_yaml_to_domain", props=["C25"], modular=True)
def EcalcModelMapper_from_yaml_to_domain(self, model_id, model_name):
    installations_path = YamlPath(('installations',))
    try:
        installations = []
        asset_id = uuid.uuid4()
        for installation_index, installation in enumerate(self._configuration.installations):
            installation_yaml_path = installations_path.append(installation_index)
            installation_id = uuid.uuid4()
            parsed_installation = self.map_yaml_component(installation, id=installation_id, yaml_path=installation_yaml_path, parent=asset_id)
            installations.append(parsed_installation)
        ecalc_model = Asset(id=model_id, name=model_name, installations=installations)
        self._mapping_context.get_energy_container_energy_model_builder().register_energy_container(asset_id, parent_id=None, energy_container=ecalc_model)
        return ecalc_model
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[ModelValidationError(message=str(e), location=Location(keys=''), file_context=self._configuration.get_file_context(()))])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.InvalidConsumptionType.__init__", props=["C25"])
def InvalidConsumptionType_init(self, actual, expected):
    self.actual = actual
    self.expected = expected
    message = f'Invalid consumption type: expected a model that consumes {expected.value.lower()}, got {actual.value.lower()}.'
    super().__init__(message)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.handle_condition_list", props=["C25"])
def f_handle_condition_list(conditions):
    conditions_with_parentheses = [f'({condition})' for condition in conditions]
    return ' {*} '.join(conditions_with_parentheses)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper._map_condition", props=["C25"])
def f_map_condition(energy_usage_model):
    if energy_usage_model.condition:
        condition_value = energy_usage_model.condition
        return condition_value
    elif energy_usage_model.conditions:
        return handle_condition_list(energy_usage_model.conditions)
    else:
        return None


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper._all_equal", props=["C25"])
def f_all_equal(items):
    return len(items) <= 1


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper._is_sampled_compressor", props=["C25"])
def f_is_sampled_compressor(model):
    if isinstance(model, CompressorModelSampled):
        return True
    if isinstance(model, CompressorWithTurbineModel) and isinstance(model.compressor_model, CompressorModelSampled):
        return True
    return False


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.InvalidEnergyUsageModelException.__init__", props=["C25"])
def InvalidEnergyUsageModelException_init(self, period, model, message):
    self.period = period
    self.model = model
    self.message = message
    super().__init__(f"Invalid energy usage model '{model.type}' with start '{period}'. \n Message: {message}")


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.map_rate_fractions", props=["C25"])
def f_map_rate_fractions(rate_fractions, system_rate):
    return [Expression.multiply(system_rate, rate_fraction) for rate_fraction in rate_fractions]


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.validate_pressures", props=["C25"])
def f_validate_pressures(suction_pressure, discharge_pressure, intermediate_pressure=None):
    validation_mask = suction_pressure.get_validation_mask()
    suction_pressure_values = suction_pressure.get_values()
    discharge_pressure_values = discharge_pressure.get_values()
    if intermediate_pressure is not None:
        intermediate_pressure_values = intermediate_pressure.get_values()
    else:
        intermediate_pressure_values = None
    for i in range(len(suction_pressure_values)):
        if validation_mask[i]:
            sp = suction_pressure_values[i]
            dp = discharge_pressure_values[i]
            if sp <= 0:
                raise ProcessNonPositivePressureValidationException(message=f'Invalid pressure at timestep {i + 1}: suction pressure ({sp}) is non-positive, which is not physically possible.')
            if dp <= 0:
                raise ProcessNonPositivePressureValidationException(message=f'Invalid pressure at timestep {i + 1}: discharge pressure ({dp}) is non-positive, which is not physically possible.')
            if intermediate_pressure_values is not None:
                ip = intermediate_pressure_values[i]
                if ip <= 0:
                    raise ProcessNonPositivePressureValidationException(message=f'Invalid pressure at timestep {i + 1}: intermediate pressure ({ip}) is non-positive, which is not physically possible.')
                if not sp <= ip <= dp:
                    raise ProcessPressureRatioValidationException(message=f'Invalid pressures at index {i + 1}: suction pressure ({sp}) must be less than intermediate pressure ({ip}), which must be less than discharge pressure ({dp}).')
            elif not sp <= dp:
                raise ProcessPressureRatioValidationException(message=f'Invalid pressures at index {i + 1}: suction pressure ({sp}) must be less than discharge pressure ({dp}).')


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper.__init__", props=["C25"])
def CompressorModelMapper_init(self, resources, reference_service, configuration):
    self._reference_service = reference_service
    self._resources = resources
    self._configuration = configuration


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_error", props=["C25"])
def CompressorModelMapper_create_error(self, message, reference, key=None):
    yaml_path = self._reference_service.get_yaml_path(reference)
    location_keys = [*yaml_path.keys[:-1], reference]
    if key is not None:
        key_path = yaml_path.append(key)
        location_keys.append(key)
    else:
        key_path = yaml_path
    file_context = self._configuration.get_file_context(key_path.keys)
    return ModelValidationError(message=message, location=Location(keys=location_keys), name=reference, file_context=file_context)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._get_resource", props=["C25"])
def CompressorModelMapper_get_resource(self, resource_name, reference):
    resource = self._resources.get(resource_name)
    if resource is None:
        raise ModelValidationException(errors=[self._create_error(message=f"Unable to find resource '{resource_name}'.", reference=reference, key='FILE')])
    return resource


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._get_fluid_model", props=["C25"])
def CompressorModelMapper_get_fluid_model(self, reference):
    model = self._reference_service.get_fluid(reference)
    try:
        if isinstance(model, YamlPredefinedFluidModel):
            return predefined_fluid_model_mapper(model)
        elif isinstance(model, YamlCompositionFluidModel):
            return composition_fluid_model_mapper(model)
        else:
            assert_never(model)
    except ValidationError as ve:
        raise ModelValidationException.from_pydantic(validation_error=ve, file_context=self._configuration.get_file_context(self._reference_service.get_yaml_path(reference).keys))
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference)])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._get_compressor_chart", props=["C25"])
def CompressorModelMapper_get_compressor_chart(self, reference, control_margin):
    model = self._reference_service.get_compressor_chart(reference)
    try:
        if isinstance(model, YamlSingleSpeedChart):
            return single_speed_compressor_chart_mapper(model_config=model, resources=self._resources, control_margin=control_margin)
        elif isinstance(model, YamlVariableSpeedChart):
            return variable_speed_compressor_chart_mapper(model_config=model, resources=self._resources, control_margin=control_margin)
        else:
            assert_never(model)
    except ValidationError as ve:
        raise ModelValidationException.from_pydantic(validation_error=ve, file_context=self._configuration.get_file_context(self._reference_service.get_yaml_path(reference).keys))
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference)])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_compressor_train_stage", props=["C25"])
def CompressorModelMapper_create_compressor_train_stage(self, compressor_chart_reference, inlet_temperature_kelvin, remove_liquid_after_cooling, fluid_service, shaft, number_of_mixer_ports_this_stage=0, number_of_splitter_ports_this_stage=0, pressure_drop_ahead_of_stage=None, interstage_pressure_control=None, control_margin=None):
    chart_data = self._get_compressor_chart(compressor_chart_reference, control_margin)
    return CompressorTrainStage(rate_modifier=RateModifier(chart_data, shaft=shaft), compressor=LegacyCompressor(chart_data, fluid_service=fluid_service, shaft=shaft), temperature_setter=TemperatureSetter(required_temperature_kelvin=inlet_temperature_kelvin, fluid_service=fluid_service), liquid_remover=LiquidRemover(fluid_service=fluid_service) if remove_liquid_after_cooling else None, fluid_service=fluid_service, choke=Choke(pressure_change=pressure_drop_ahead_of_stage, fluid_service=fluid_service) if pressure_drop_ahead_of_stage else None, interstage_pressure_control=interstage_pressure_control, splitter=LegacySplitter(number_of_splitter_ports_this_stage + 1) if number_of_splitter_ports_this_stage > 0 else None, mixer=LegacyMixer(number_of_mixer_ports_this_stage + 1, fluid_service=fluid_service) if number_of_mixer_ports_this_stage > 0 else None)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_variable_speed_compressor_train", props=["C25"])
def CompressorModelMapper_create_variable_speed_compressor_train(self, model):
    fluid_model_reference = model.fluid_model
    fluid_model = self._get_fluid_model(fluid_model_reference)
    train_spec = model.compressor_train
    shaft = VariableSpeedShaft()
    fluid_service = NeqSimFluidService.instance()
    stages_data = train_spec.stages
    stages = []
    for stage in stages_data:
        control_margin = convert_control_margin_to_fraction(stage.control_margin, YAML_UNIT_MAPPING[stage.control_margin_unit])
        stages.append(self._create_compressor_train_stage(compressor_chart_reference=stage.compressor_chart, inlet_temperature_kelvin=convert_temperature_to_kelvin([stage.inlet_temperature], input_unit=Unit.CELSIUS)[0], remove_liquid_after_cooling=True, fluid_service=fluid_service, shaft=shaft, pressure_drop_ahead_of_stage=stage.pressure_drop_ahead_of_stage, control_margin=control_margin))
    pressure_control = _pressure_control_mapper(model)
    if fluid_model is None:
        raise EcalcValidationException('Fluid model is required for compressor train.')
    compressor_model = CompressorTrainCommonShaft(stages=stages, shaft=shaft, fluid_service=fluid_service, energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor, calculate_max_rate=model.calculate_max_rate, pressure_control=pressure_control, maximum_power=model.maximum_power)
    return (compressor_model, fluid_model)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_single_speed_compressor_train", props=["C25"])
def CompressorModelMapper_create_single_speed_compressor_train(self, model):
    fluid_model_reference = model.fluid_model
    fluid_model = self._get_fluid_model(fluid_model_reference)
    train_spec = model.compressor_train
    shaft = SingleSpeedShaft()
    fluid_service = NeqSimFluidService.instance()
    stages = [self._create_compressor_train_stage(compressor_chart_reference=stage.compressor_chart, inlet_temperature_kelvin=convert_temperature_to_kelvin([stage.inlet_temperature], input_unit=Unit.CELSIUS)[0], remove_liquid_after_cooling=True, fluid_service=fluid_service, shaft=shaft, pressure_drop_ahead_of_stage=stage.pressure_drop_ahead_of_stage, control_margin=convert_control_margin_to_fraction(stage.control_margin, YAML_UNIT_MAPPING[stage.control_margin_unit])) for stage in train_spec.stages]
    pressure_control = _pressure_control_mapper(model)
    maximum_discharge_pressure = model.maximum_discharge_pressure
    if maximum_discharge_pressure and pressure_control != FixedSpeedPressureControl.DOWNSTREAM_CHOKE:
        raise EcalcValidationException(f'Setting {EcalcYamlKeywords.maximum_discharge_pressure} for single speed compressor train is currently only supported with {FixedSpeedPressureControl.DOWNSTREAM_CHOKE.value} pressure control option. Pressure control option is {pressure_control.value}.')
    if fluid_model is None:
        raise EcalcValidationException('Fluid model is required for compressor train.')
    compressor_model = CompressorTrainCommonShaft(stages=stages, shaft=shaft, fluid_service=fluid_service, pressure_control=pressure_control, maximum_discharge_pressure=maximum_discharge_pressure, energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor, calculate_max_rate=model.calculate_max_rate, maximum_power=model.maximum_power)
    return (compressor_model, fluid_model)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_turbine", props=["C25"])
def CompressorModelMapper_create_turbine(self, reference):
    model = self._reference_service.get_turbine(reference)
    try:
        return Turbine(lower_heating_value=model.lower_heating_value, loads=model.turbine_loads, efficiency_fractions=model.turbine_efficiencies, energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference)])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_compressor_with_turbine", props=["C25"])
def CompressorModelMapper_create_compressor_with_turbine(self, model, operational_data=None):
    compressor_train_model, fluid_model = self.create_compressor_model(model.compressor_model, operational_data=operational_data)
    turbine_model = self._create_turbine(model.turbine_model)
    return (CompressorWithTurbineModel(energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor, compressor_energy_function=compressor_train_model, turbine_model=turbine_model), fluid_model)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_simplified_model_with_prepared_stages", props=["C25"])
def CompressorModelMapper_create_simplified_model_with_prepared_stages(self, model, operational_data):
    fluid_model = self._get_fluid_model(model.fluid_model)
    train_spec = model.compressor_train
    shaft = SingleSpeedShaft()
    if isinstance(train_spec, YamlUnknownCompressorStages):
        if train_spec.maximum_pressure_ratio_per_stage is None:
            raise EcalcValidationException('MAXIMUM_PRESSURE_RATIO_PER_STAGE is required for unknown compressor stages.')
        suction_pressure = operational_data.suction_pressures
        discharge_pressure = operational_data.discharge_pressures
        if suction_pressure is None:
            raise EcalcValidationException('SUCTION_PRESSURE is required for simplified compressor model. Simplified models perform thermodynamic calculations that require pressure data.')
        if discharge_pressure is None:
            raise EcalcValidationException('DISCHARGE_PRESSURE is required for simplified compressor model. Simplified models perform thermodynamic calculations that require pressure data.')
        number_of_stages = calculate_number_of_stages(maximum_pressure_ratio_per_stage=train_spec.maximum_pressure_ratio_per_stage, suction_pressures=suction_pressure, discharge_pressures=discharge_pressure)
        yaml_stages = [train_spec for _ in range(number_of_stages)]
    else:
        yaml_stages = train_spec.stages
    fluid_service = NeqSimFluidService.instance()
    stages = []
    if operational_data is None:
        for yaml_stage in yaml_stages:
            yaml_chart = self._reference_service.get_compressor_chart(yaml_stage.compressor_chart)
            chart = _generic_from_design_point_compressor_chart_mapper(yaml_chart)
            inlet_temperature_kelvin = convert_temperature_to_kelvin([yaml_stage.inlet_temperature], input_unit=Unit.CELSIUS)[0]
            stages.append(CompressorTrainStage(rate_modifier=RateModifier(chart, shaft=shaft), compressor=LegacyCompressor(chart, fluid_service=fluid_service, shaft=shaft), temperature_setter=TemperatureSetter(required_temperature_kelvin=inlet_temperature_kelvin, fluid_service=fluid_service), liquid_remover=LiquidRemover(fluid_service=fluid_service), fluid_service=fluid_service))
    else:
        suction_pressures = operational_data.suction_pressures
        discharge_pressures = operational_data.discharge_pressures
        if suction_pressures is None:
            raise EcalcValidationException('SUCTION_PRESSURE is required for simplified compressor model. Simplified models perform thermodynamic calculations that require pressure data.')
        if discharge_pressures is None:
            raise EcalcValidationException('DISCHARGE_PRESSURE is required for simplified compressor model. Simplified models perform thermodynamic calculations that require pressure data.')
        pressure_ratios_per_stage = np.asarray([calculate_pressure_ratio_per_stage(suction_pressure=sp, discharge_pressure=dp, n_stages=len(yaml_stages)) for sp, dp in zip(suction_pressures, discharge_pressures)])
        stage_inlet_pressure = suction_pressures
        for yaml_stage in yaml_stages:
            stage_outlet_pressure = np.multiply(stage_inlet_pressure, pressure_ratios_per_stage)
            yaml_chart = self._reference_service.get_compressor_chart(yaml_stage.compressor_chart)
            inlet_temperature_kelvin = convert_temperature_to_kelvin([yaml_stage.inlet_temperature], input_unit=Unit.CELSIUS)[0]
            if isinstance(yaml_chart, YamlGenericFromDesignPointChart):
                chart = _generic_from_design_point_compressor_chart_mapper(yaml_chart)
            else:
                chart = GenericFromInputChartData(fluid_model=fluid_model, fluid_service=fluid_service, inlet_temperature=inlet_temperature_kelvin, inlet_pressure=stage_inlet_pressure.tolist(), standard_rates=operational_data.rates.tolist(), outlet_pressure=stage_outlet_pressure.tolist(), polytropic_efficiency=convert_efficiency_to_fraction(efficiency_values=[yaml_chart.polytropic_efficiency], input_unit=YAML_UNIT_MAPPING[yaml_chart.units.efficiency])[0])
            stage_inlet_pressure = stage_outlet_pressure
            stages.append(CompressorTrainStage(rate_modifier=RateModifier(chart, shaft=shaft), compressor=LegacyCompressor(chart, fluid_service=fluid_service, shaft=shaft), temperature_setter=TemperatureSetter(required_temperature_kelvin=inlet_temperature_kelvin, fluid_service=fluid_service), liquid_remover=LiquidRemover(fluid_service=fluid_service), fluid_service=fluid_service))
    return (CompressorTrainSimplified(stages=stages, fluid_service=fluid_service, energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor, calculate_max_rate=model.calculate_max_rate, maximum_power=model.maximum_power), fluid_model)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_variable_speed_compressor_train_multiple_streams_and_pressures", props=["C25"])
def CompressorModelMapper_create_variable_speed_compressor_train_multiple_streams_and_pressures(self, model):
    stream_references = {stream.name for stream in model.streams}
    shaft = VariableSpeedShaft()
    fluid_service = NeqSimFluidService.instance()
    stream_to_stage_map = {}
    for stage_index, stage_config in enumerate(model.stages):
        for stream_reference in stage_config.stream or []:
            if stream_reference in stream_references:
                stream_to_stage_map.setdefault(stream_reference, stage_index)
    stages = [self._create_compressor_train_stage(fluid_service=fluid_service, shaft=shaft, number_of_mixer_ports_this_stage=sum((1 for stream_name in stage_config.stream or [] for s in model.streams if s.name == stream_name and isinstance(s, YamlMultipleStreamsStreamIngoing))) - (1 if stage_index == 0 else 0), number_of_splitter_ports_this_stage=sum((1 for stream_name in stage_config.stream or [] for s in model.streams if s.name == stream_name and isinstance(s, YamlMultipleStreamsStreamOutgoing))), compressor_chart_reference=stage_config.compressor_chart, inlet_temperature_kelvin=convert_temperature_to_kelvin([stage_config.inlet_temperature], input_unit=Unit.CELSIUS)[0], pressure_drop_ahead_of_stage=stage_config.pressure_drop_ahead_of_stage, remove_liquid_after_cooling=True, control_margin=convert_control_margin_to_fraction(stage_config.control_margin, YAML_UNIT_MAPPING[stage_config.control_margin_unit]), interstage_pressure_control=InterstagePressureControl(upstream_pressure_control=map_yaml_to_fixed_speed_pressure_control(stage_config.interstage_control_pressure.upstream_pressure_control), downstream_pressure_control=map_yaml_to_fixed_speed_pressure_control(stage_config.interstage_control_pressure.downstream_pressure_control)) if stage_config.interstage_control_pressure else None) for stage_index, stage_config in enumerate(model.stages) if not any((stream_to_stage_map.setdefault(stream_reference, stage_index) != stage_index for stream_reference in stage_config.stream or [] if stream_reference not in stream_references or stream_reference in stream_to_stage_map))]
    fluid_models = [self._get_fluid_model(stream_config.fluid_model) if isinstance(stream_config, YamlMultipleStreamsStreamIngoing) else None for stream_config in model.streams]
    if not any(fluid_models):
        raise EcalcValidationException('An inlet stream is required for this model.')
    interstage_pressures = {i for i, stage in enumerate(stages) if stage.has_control_pressure}
    stage_number_interstage_pressure = interstage_pressures.pop() if interstage_pressures else None
    compressor_model = CompressorTrainCommonShaft(energy_usage_adjustment_constant=model.power_adjustment_constant, energy_usage_adjustment_factor=model.power_adjustment_factor, stages=stages, shaft=shaft, fluid_service=fluid_service, calculate_max_rate=False, maximum_power=model.maximum_power, pressure_control=_pressure_control_mapper(model), stage_number_interstage_pressure=stage_number_interstage_pressure)
    return (compressor_model, fluid_models)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper._create_compressor_sampled", props=["C25"])
def CompressorModelMapper_create_compressor_sampled(self, model, reference):
    rate_header = EcalcYamlKeywords.consumer_function_rate
    suction_pressure_header = EcalcYamlKeywords.consumer_function_suction_pressure
    discharge_pressure_header = EcalcYamlKeywords.consumer_function_discharge_pressure
    power_header = EcalcYamlKeywords.consumer_tabular_power
    fuel_header = EcalcYamlKeywords.consumer_tabular_fuel
    resource = self._get_resource(model.file, reference)
    resource_headers = resource.get_headers()
    has_fuel = fuel_header in resource_headers
    energy_usage_header = fuel_header if has_fuel else power_header
    rate_values = _get_float_column_or_none(resource, rate_header)
    suction_pressure_values = _get_float_column_or_none(resource, suction_pressure_header)
    discharge_pressure_values = _get_float_column_or_none(resource, discharge_pressure_header)
    energy_usage_values = resource.get_float_column(energy_usage_header)
    power_interpolation_values = None
    if has_fuel:
        power_interpolation_values = _get_float_column_or_none(resource, power_header)
    return CompressorModelSampled(energy_usage_type=EnergyUsageType.FUEL if energy_usage_header == fuel_header else EnergyUsageType.POWER, energy_usage_values=energy_usage_values, rate_values=rate_values, suction_pressure_values=suction_pressure_values, discharge_pressure_values=discharge_pressure_values, power_interpolation_values=power_interpolation_values)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.CompressorModelMapper.create_compressor_model", props=["C25"])
def CompressorModelMapper_create_compressor_model(self, reference, operational_data=None):
    model = self._reference_service.get_compressor_model(reference)
    try:
        if isinstance(model, YamlSimplifiedVariableSpeedCompressorTrain):
            return self._create_simplified_model_with_prepared_stages(model=model, operational_data=operational_data)
        elif isinstance(model, YamlVariableSpeedCompressorTrain):
            return self._create_variable_speed_compressor_train(model)
        elif isinstance(model, YamlSingleSpeedCompressorTrain):
            return self._create_single_speed_compressor_train(model)
        elif isinstance(model, YamlCompressorWithTurbine):
            return self._create_compressor_with_turbine(model, operational_data=operational_data)
        elif isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures):
            return self._create_variable_speed_compressor_train_multiple_streams_and_pressures(model)
        elif isinstance(model, YamlCompressorTabularModel):
            return (self._create_compressor_sampled(model, reference), None)
        else:
            assert_never(model)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.TabularModelMapper.__init__", props=["C25"])
def TabularModelMapper_init(self, resources, reference_service, configuration):
    self._reference_service = reference_service
    self._resources = resources
    self._configuration = configuration


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.TabularModelMapper._create_error", props=["C25"])
def TabularModelMapper_create_error(self, message, reference, key=None):
    yaml_path = self._reference_service.get_yaml_path(reference)
    location_keys = [*yaml_path.keys[:-1], reference]
    if key is not None:
        key_path = yaml_path.append(key)
        location_keys.append(key)
    else:
        key_path = yaml_path
    file_context = self._configuration.get_file_context(key_path.keys)
    return ModelValidationError(message=message, location=Location(keys=location_keys), name=reference, file_context=file_context)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.TabularModelMapper._get_resource", props=["C25"])
def TabularModelMapper_get_resource(self, resource_name, reference):
    resource = self._resources.get(resource_name)
    if resource is None:
        raise ModelValidationException(errors=[self._create_error(message=f"Unable to find resource '{resource_name}'.", reference=reference, key='FILE')])
    return resource


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.TabularModelMapper.create_tabular_model", props=["C25"])
def TabularModelMapper_create_tabular_model(self, reference):
    tabular_model = self._reference_service.get_tabulated_model(reference)
    resource = self._get_resource(tabular_model.file, reference)
    try:
        resource_headers = resource.get_headers()
        resource_data = [resource.get_float_column(header) for header in resource_headers]
        return TabularEnergyFunction(headers=resource_headers, data=resource_data)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)])


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.PumpModelMapper.__init__", props=["C25"])
def PumpModelMapper_init(self, resources, reference_service, configuration):
    self._reference_service = reference_service
    self._resources = resources
    self._configuration = configuration


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.PumpModelMapper._create_error", props=["C25"])
def PumpModelMapper_create_error(self, message, reference, key=None):
    yaml_path = self._reference_service.get_yaml_path(reference)
    location_keys = [*yaml_path.keys[:-1], reference]
    if key is not None:
        key_path = yaml_path.append(key)
        location_keys.append(key)
    else:
        key_path = yaml_path
    file_context = self._configuration.get_file_context(key_path.keys)
    return ModelValidationError(message=message, location=Location(keys=location_keys), name=reference, file_context=file_context)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.PumpModelMapper._get_resource", props=["C25"])
def PumpModelMapper_get_resource(self, resource_name, reference):
    resource = self._resources.get(resource_name)
    if resource is None:
        raise ModelValidationException(errors=[self._create_error(message=f"Unable to find resource '{resource_name}'.", reference=reference, key='FILE')])
    return resource


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.PumpModelMapper.create_pump_model", props=["C25"])
def PumpModelMapper_create_pump_model(self, reference):
    model = self._reference_service.get_pump_model(reference)
    resource_name = model.file
    resource = self._get_resource(resource_name, reference)
    try:
        if isinstance(model, YamlPumpChartSingleSpeed):
            return _create_pump_model_single_speed_dto_model_data(resource=resource, facility_data=model)
        elif isinstance(model, YamlPumpChartVariableSpeed):
            return _create_pump_chart_variable_speed_dto_model_data(resource=resource, facility_data=model)
    except EcalcValidationException as e:
        raise ModelValidationException(errors=[self._create_error(str(e), reference=reference)])
    except InvalidResourceException as e:
        raise InvalidChartResourceException(message=str(e), file_mark=e.file_mark, resource_name=resource_name)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper.__init__", props=["C25"])
def ConsumerFunctionMapper_init(self, configuration, resources, references, target_period, expression_evaluator, regularity, energy_usage_model, mapping_context, consumer_id):
    self._configuration = configuration
    self._resources = resources
    self.__references = references
    self._compressor_model_mapper = CompressorModelMapper(resources=resources, configuration=configuration, reference_service=references)
    self._tabular_model_mapper = TabularModelMapper(resources=resources, configuration=configuration, reference_service=references)
    self._pump_model_mapper = PumpModelMapper(resources=resources, configuration=configuration, reference_service=references)
    self._target_period = target_period
    self._expression_evaluator = expression_evaluator
    self._regularity = regularity
    self._period_subsets = {}
    self._time_adjusted_model = define_time_model_for_period(energy_usage_model, target_period=target_period)
    self._mapping_context = mapping_context
    self._process_service = mapping_context._process_service
    self._consumer_id = consumer_id
    for period in self._time_adjusted_model:
        start_index, end_index = period.get_period_indices(expression_evaluator.get_periods())
        period_regularity = regularity.get_subset(start_index, end_index)
        period_evaluator = expression_evaluator.get_subset(start_index, end_index)
        self._period_subsets[period] = (period_regularity, period_evaluator)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_direct", props=["C25"])
def ConsumerFunctionMapper_map_direct(self, model, consumes, period):
    period_regularity, period_evaluator = self._period_subsets[period]
    power_loss_factor_expression = TimeSeriesExpression(expression=model.power_loss_factor, expression_evaluator=period_evaluator)
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=power_loss_factor_expression)
    consumption_rate_type = RateType((model.consumption_rate_type or ConsumptionRateType.STREAM_DAY).value)
    if isinstance(model, YamlEnergyUsageModelDirectFuel):
        if consumes != ConsumptionType.FUEL:
            raise InvalidConsumptionType(actual=ConsumptionType.FUEL, expected=consumes)
        fuel_rate_expression = TimeSeriesExpression(expression=model.fuel_rate, expression_evaluator=period_evaluator, condition=_map_condition(model))
        fuel_rate = ExpressionTimeSeriesFlowRate(time_series_expression=fuel_rate_expression, regularity=period_regularity, consumption_rate_type=consumption_rate_type)
        return DirectConsumerFunction(energy_usage_type=EnergyUsageType.FUEL, fuel_rate=fuel_rate, power_loss_factor=power_loss_factor)
    else:
        if consumes != ConsumptionType.ELECTRICITY:
            raise InvalidConsumptionType(actual=ConsumptionType.ELECTRICITY, expected=consumes)
        load_expression = TimeSeriesExpression(expression=model.load, expression_evaluator=period_evaluator, condition=_map_condition(model))
        load = ExpressionTimeSeriesPower(time_series_expression=load_expression, regularity=period_regularity, consumption_rate_type=consumption_rate_type)
        return DirectConsumerFunction(energy_usage_type=EnergyUsageType.POWER, load=load, power_loss_factor=power_loss_factor)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_tabular", props=["C25"])
def ConsumerFunctionMapper_map_tabular(self, model, consumes, period):
    period_regularity, period_evaluator = self._period_subsets[period]
    energy_model = self._tabular_model_mapper.create_tabular_model(model.energy_function)
    energy_usage_type = energy_model.get_energy_usage_type()
    energy_usage_type_as_consumption_type = ConsumptionType.ELECTRICITY if energy_usage_type == EnergyUsageType.POWER else ConsumptionType.FUEL
    if consumes != energy_usage_type_as_consumption_type:
        raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
    power_loss_factor_expression = TimeSeriesExpression(expression=model.power_loss_factor, expression_evaluator=period_evaluator)
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=power_loss_factor_expression)
    variables = [ExpressionTimeSeriesVariable(name=variable.name, time_series_expression=TimeSeriesExpression(expression=variable.expression, expression_evaluator=period_evaluator, condition=_map_condition(model)), regularity=period_regularity, is_rate=variable.name.lower() == 'rate') for variable in model.variables]
    return TabularConsumerFunction(headers=energy_model.headers, data=energy_model.data, variables=variables, power_loss_factor=power_loss_factor)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_pump", props=["C25"])
def ConsumerFunctionMapper_map_pump(self, model, consumes, period, consumer_id):
    pump_model = self._pump_model_mapper.create_pump_model(model.energy_function)
    period_regularity, period_evaluator = self._period_subsets[period]
    if consumes != ConsumptionType.ELECTRICITY:
        raise InvalidConsumptionType(actual=ConsumptionType.ELECTRICITY, expected=consumes)
    power_loss_factor_expression = TimeSeriesExpression(expression=model.power_loss_factor, expression_evaluator=period_evaluator)
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=power_loss_factor_expression)
    rate_expression = TimeSeriesExpression(expression=model.rate, expression_evaluator=period_evaluator, condition=_map_condition(model))
    rate_standard_m3_day = ExpressionTimeSeriesFlowRate(time_series_expression=rate_expression, regularity=period_regularity)
    fluid_density_expression = TimeSeriesExpression(expression=model.fluid_density, expression_evaluator=period_evaluator)
    fluid_density = ExpressionTimeSeriesFluidDensity(time_series_expression=fluid_density_expression)
    pressure_validation_mask = [bool(_rate * _regularity > 0) for _rate, _regularity in zip(rate_standard_m3_day.get_stream_day_values(), period_regularity.values) if _rate is not None]
    suction_pressure_expression = TimeSeriesExpression(expression=model.suction_pressure, expression_evaluator=period_evaluator)
    suction_pressure = ExpressionTimeSeriesPressure(time_series_expression=suction_pressure_expression, validation_mask=pressure_validation_mask)
    discharge_pressure_expression = TimeSeriesExpression(expression=model.discharge_pressure, expression_evaluator=period_evaluator)
    discharge_pressure = ExpressionTimeSeriesPressure(time_series_expression=discharge_pressure_expression, validation_mask=pressure_validation_mask)
    validate_pressures(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    evaluation_input = PumpEvaluationInput(rate=rate_standard_m3_day, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_density=fluid_density, power_loss_factor=power_loss_factor)
    model_id = uuid4()
    component = PumpProcessSystemComponent(id=model_id, name=model.energy_function, type=model.type)
    self._process_service.register_pump_process_system(ecalc_component=component, pump_process_system=pump_model)
    self._process_service.register_evaluation_input(ecalc_component=component, evaluation_input=evaluation_input)
    self._process_service.map_model_to_consumer(consumer_id=consumer_id, period=period, ecalc_component=component)
    return pump_model


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_multiple_streams_compressor", props=["C25"], modular=True)
def ConsumerFunctionMapper_map_multiple_streams_compressor(self, model, consumes, period, consumer_id):
    process_system_id = uuid4()
    compressor_train_model, fluid_models = self._compressor_model_mapper.create_compressor_model(model.compressor_train_model)
    consumption_type = compressor_train_model.get_consumption_type()
    if consumes != consumption_type:
        raise InvalidConsumptionType(actual=consumption_type, expected=consumes)
    regularity, expression_evaluator = self._period_subsets[period]
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=TimeSeriesExpression(model.power_loss_factor, expression_evaluator=expression_evaluator)) if model.power_loss_factor is not None else None
    rates_per_stream = [ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(rate_expression, expression_evaluator=expression_evaluator, condition=_map_condition(model)), regularity=regularity, consumption_rate_type=RateType.CALENDAR_DAY) for rate_expression in model.rate_per_stream]
    rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
    sum_of_rates = [sum(values) for values in zip(*rates_per_stream_values)]
    validation_mask = [bool(_rate * _regularity > 0) for _rate, _regularity in zip(sum_of_rates, regularity.values)]
    suction_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(model.suction_pressure, expression_evaluator=expression_evaluator), validation_mask=validation_mask)
    discharge_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(model.discharge_pressure, expression_evaluator=expression_evaluator), validation_mask=validation_mask)
    interstage_control_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(model.interstage_control_pressure, expression_evaluator=expression_evaluator), validation_mask=validation_mask) if model.interstage_control_pressure is not None else None
    validate_pressures(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, intermediate_pressure=interstage_control_pressure)
    evaluation_input = CompressorEvaluationInput(rate=rates_per_stream, fluid_model=fluid_models, power_loss_factor=power_loss_factor, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, intermediate_pressure=interstage_control_pressure)
    component = CompressorProcessSystemComponent(id=process_system_id, name=model.compressor_train_model, type=model.type)
    self._process_service.register_compressor_process_system(ecalc_component=component, compressor_process_system=compressor_train_model)
    self._process_service.register_evaluation_input(ecalc_component=component, evaluation_input=evaluation_input)
    self._process_service.map_model_to_consumer(consumer_id=consumer_id, period=period, ecalc_component=component)
    return compressor_train_model


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_compressor", props=["C25"], modular=True)
def ConsumerFunctionMapper_map_compressor(self, model, consumes, period, consumer_id):
    regularity, expression_evaluator = self._period_subsets[period]
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=TimeSeriesExpression(model.power_loss_factor, expression_evaluator=expression_evaluator)) if model.power_loss_factor is not None else None
    stream_day_rate = ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(model.rate, expression_evaluator=expression_evaluator, condition=_map_condition(model)), consumption_rate_type=RateType.CALENDAR_DAY, regularity=regularity)
    validation_mask = [bool(_rate * _regularity > 0) for _rate, _regularity in zip(stream_day_rate.get_stream_day_values(), regularity.values) if _rate is not None]
    suction_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(model.suction_pressure, expression_evaluator=expression_evaluator), validation_mask=validation_mask) if model.suction_pressure is not None else None
    discharge_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(model.discharge_pressure, expression_evaluator=expression_evaluator), validation_mask=validation_mask) if model.discharge_pressure is not None else None
    operational_data = CompressorOperationalTimeSeries.from_time_series(rates=stream_day_rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    if suction_pressure is not None and discharge_pressure is not None:
        validate_pressures(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
    compressor_model, fluid_model = self._compressor_model_mapper.create_compressor_model(model.energy_function, operational_data=operational_data)
    consumption_type = compressor_model.get_consumption_type()
    if consumes != consumption_type:
        raise InvalidConsumptionType(actual=consumption_type, expected=consumes)
    model_id = uuid4()
    if _is_sampled_compressor(compressor_model):
        evaluation_input = CompressorSampledEvaluationInput(rate=stream_day_rate, power_loss_factor=power_loss_factor, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
        component = CompressorSampledComponent(id=model_id, name=model.energy_function, type=model.type)
        self._process_service.register_compressor_sampled(ecalc_component=component, compressor_sampled=compressor_model)
    else:
        evaluation_input = CompressorEvaluationInput(rate=stream_day_rate, fluid_model=fluid_model, power_loss_factor=power_loss_factor, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, intermediate_pressure=None)
        component = CompressorProcessSystemComponent(id=model_id, name=model.energy_function, type=model.type)
        self._process_service.register_compressor_process_system(ecalc_component=component, compressor_process_system=compressor_model)
    self._process_service.register_evaluation_input(ecalc_component=component, evaluation_input=evaluation_input)
    self._process_service.map_model_to_consumer(consumer_id=consumer_id, period=period, ecalc_component=component)
    return compressor_model


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_compressor_system", props=["C25"])
def ConsumerFunctionMapper_map_compressor_system(self, model, consumes, period):
    regularity, expression_evaluator = self._period_subsets[period]
    operational_settings = []
    for operational_setting in model.operational_settings:
        if operational_setting.rate_fractions is not None:
            rate_expressions = [f'({model.total_system_rate}) {{*}} ({rate_fraction})' for rate_fraction in operational_setting.rate_fractions]
            rates = [ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression=rate_expression, expression_evaluator=expression_evaluator, condition=_map_condition(model)), regularity=regularity) for rate_expression in rate_expressions]
        else:
            rates = [ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression=rate_expr, expression_evaluator=expression_evaluator, condition=_map_condition(model)), regularity=regularity) for rate_expr in operational_setting.rates]
        validation_mask = [[bool(_rate * _regularity > 0) for _rate, _regularity in zip(rate.get_stream_day_values(), regularity.values) if _rate is not None] for rate in rates]
        if operational_setting.suction_pressure is not None:
            suction_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=operational_setting.suction_pressure, expression_evaluator=expression_evaluator), validation_mask=mask) for mask in validation_mask]
        else:
            suction_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=pressure_expr, expression_evaluator=expression_evaluator), validation_mask=mask) for pressure_expr, mask in zip(operational_setting.suction_pressures, validation_mask)]
        if operational_setting.discharge_pressure is not None:
            discharge_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=operational_setting.discharge_pressure, expression_evaluator=expression_evaluator), validation_mask=mask) for mask in validation_mask]
        else:
            discharge_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=pressure_expr, expression_evaluator=expression_evaluator), validation_mask=mask) for pressure_expr, mask in zip(operational_setting.discharge_pressures, validation_mask)]
        for suction_pressure, discharge_pressure in zip(suction_pressures, discharge_pressures):
            validate_pressures(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
        core_setting = ConsumerSystemOperationalSettingExpressions(rates=rates, discharge_pressures=discharge_pressures, suction_pressures=suction_pressures, cross_overs=operational_setting.crossover)
        operational_settings.append(core_setting)
    compressors = []
    compressor_consumption_types = set()
    for compressor in model.compressors:
        model_ref = compressor.compressor_model
        compressor_train, fluid_model = self._compressor_model_mapper.create_compressor_model(model_ref)
        compressors.append(ConsumerSystemComponent(name=compressor.name, fluid_model=fluid_model, facility_model=compressor_train))
        compressor_consumption_types.add(compressor_train.get_consumption_type())
    if not _all_equal(compressor_consumption_types):
        raise EcalcValidationException('All compressors in a system must consume the same kind of energy')
    consumption_type = compressor_consumption_types.pop() if len(compressor_consumption_types) == 1 else ConsumptionType.ELECTRICITY
    if consumes != consumption_type:
        raise InvalidConsumptionType(actual=consumption_type, expected=consumes)
    power_loss_factor_expression = TimeSeriesExpression(expression=model.power_loss_factor, expression_evaluator=expression_evaluator)
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=power_loss_factor_expression)
    return ConsumerSystemConsumerFunction(consumer_components=compressors, operational_settings_expressions=operational_settings, power_loss_factor=power_loss_factor)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper._map_pump_system", props=["C25"])
def ConsumerFunctionMapper_map_pump_system(self, model, consumes, period):
    regularity, expression_evaluator = self._period_subsets[period]
    if consumes != ConsumptionType.ELECTRICITY:
        raise InvalidConsumptionType(actual=ConsumptionType.ELECTRICITY, expected=consumes)
    pumps = []
    for pump in model.pumps:
        pump_model = self._pump_model_mapper.create_pump_model(pump.chart)
        pumps.append(ConsumerSystemComponent(name=pump.name, facility_model=pump_model))
    operational_settings = []
    for operational_setting in model.operational_settings:
        if operational_setting.rate_fractions is not None:
            rate_expressions = [f'({model.total_system_rate}) {{*}} ({rate_fraction})' for rate_fraction in operational_setting.rate_fractions]
            rates = [ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression=rate_expression, expression_evaluator=expression_evaluator, condition=_map_condition(model)), regularity=regularity) for rate_expression in rate_expressions]
        else:
            rates = [ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression=rate_expr, expression_evaluator=expression_evaluator, condition=_map_condition(model)), regularity=regularity) for rate_expr in operational_setting.rates]
        number_of_pumps = len(pumps)
        if operational_setting.suction_pressure is not None:
            suction_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=operational_setting.suction_pressure, expression_evaluator=expression_evaluator))] * number_of_pumps
        else:
            suction_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=pressure_expr, expression_evaluator=expression_evaluator)) for pressure_expr in operational_setting.suction_pressures]
        if operational_setting.discharge_pressure is not None:
            discharge_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=operational_setting.discharge_pressure, expression_evaluator=expression_evaluator))] * number_of_pumps
        else:
            discharge_pressures = [ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression=pressure_expr, expression_evaluator=expression_evaluator)) for pressure_expr in operational_setting.discharge_pressures]
        if operational_setting.fluid_densities:
            fluid_densities = [ExpressionTimeSeriesFluidDensity(time_series_expression=TimeSeriesExpression(expression=fluid_density_expr, expression_evaluator=expression_evaluator)) for fluid_density_expr in operational_setting.fluid_densities]
        else:
            fluid_densities = [ExpressionTimeSeriesFluidDensity(time_series_expression=TimeSeriesExpression(expression=model.fluid_density, expression_evaluator=expression_evaluator))] * number_of_pumps
        for suction_pressure, discharge_pressure in zip(suction_pressures, discharge_pressures):
            validate_pressures(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)
        operational_settings.append(ConsumerSystemOperationalSettingExpressions(rates=rates, suction_pressures=suction_pressures, discharge_pressures=discharge_pressures, cross_overs=operational_setting.crossover, fluid_densities=fluid_densities))
    power_loss_factor_expression = TimeSeriesExpression(expression=model.power_loss_factor, expression_evaluator=expression_evaluator)
    power_loss_factor = ExpressionTimeSeriesPowerLossFactor(time_series_expression=power_loss_factor_expression)
    return ConsumerSystemConsumerFunction(power_loss_factor=power_loss_factor, consumer_components=pumps, operational_settings_expressions=operational_settings)


@target("libecalc.presentation.yaml.mappers.consumer_function_mapper.ConsumerFunctionMapper.from_yaml_to_dto", props=["C25"], modular=True)
def ConsumerFunctionMapper_from_yaml_to_dto(self, consumes):
    temporal_dict = {}
    for period, model in self._time_adjusted_model.items():
        try:
            if isinstance(model, YamlEnergyUsageModelDirectElectricity | YamlEnergyUsageModelDirectFuel):
                mapped_model = self._map_direct(model=model, consumes=consumes, period=period)
            elif isinstance(model, YamlEnergyUsageModelCompressor):
                mapped_model = self._map_compressor(model, consumes=consumes, period=period, consumer_id=self._consumer_id)
            elif isinstance(model, YamlEnergyUsageModelPump):
                mapped_model = self._map_pump(model, consumes=consumes, period=period, consumer_id=self._consumer_id)
            elif isinstance(model, YamlEnergyUsageModelCompressorSystem):
                mapped_model = self._map_compressor_system(model, consumes=consumes, period=period)
            elif isinstance(model, YamlEnergyUsageModelPumpSystem):
                mapped_model = self._map_pump_system(model, consumes=consumes, period=period)
            elif isinstance(model, YamlEnergyUsageModelTabulated):
                mapped_model = self._map_tabular(model=model, consumes=consumes, period=period)
            elif isinstance(model, YamlEnergyUsageModelCompressorTrainMultipleStreams):
                mapped_model = self._map_multiple_streams_compressor(model, consumes=consumes, period=period, consumer_id=self._consumer_id)
            else:
                assert_never(model)
            temporal_dict[period] = mapped_model
        except (InvalidConsumptionType, ValueError, InvalidExpressionError, EcalcValidationException) as e:
            raise InvalidEnergyUsageModelException(message=str(e), period=period, model=model)
        except InvalidChartResourceException as e:
            raise ModelValidationException(errors=[ModelValidationError(message=str(e), location=e.location, file_context=e.file_context)])
    if len(temporal_dict) == 0:
        return None
    return TemporalModel(temporal_dict)


@target("libecalc.presentation.yaml.mappers.ecalc_event_mapper.EcalcEventMapper.map_events", props=["C25"])
def EcalcEventMapper_map_events(self, yaml_ecalc_events, yaml_process_events):
    ecalc_events_by_name = {}
    for yaml_event in yaml_ecalc_events:
        if yaml_event.name in ecalc_events_by_name:
            raise EcalcValidationException(f"Duplicate ECALC_EVENT name '{yaml_event.name}'. Event names must be unique.")
        ecalc_events_by_name[yaml_event.name] = []
    for yaml_process_event in yaml_process_events:
        if yaml_process_event.ref not in ecalc_events_by_name:
            raise EcalcValidationException(f"PROCESS_EVENT '{yaml_process_event.name}' references ECALC_EVENT '{yaml_process_event.ref}' which does not exist. Available: {', '.join(sorted(ecalc_events_by_name.keys()))}.")
        ecalc_events_by_name[yaml_process_event.ref].append(ProcessEvent(name=yaml_process_event.name, type=ProcessEventType(yaml_process_event.type.value), description=yaml_process_event.description))
    ecalc_events = []
    for yaml_event in yaml_ecalc_events:
        ecalc_events.append(EcalcEvent(name=yaml_event.name, type=EcalcEventType(yaml_event.type.value), start=yaml_event.start, description=yaml_event.description, process_events=ecalc_events_by_name[yaml_event.name]))
    return ecalc_events


@target("libecalc.presentation.yaml.mappers.fluid_mapper", props=["C25"])
class K80_constants:
    ULTRA_DRY_MW_17P1 = FluidComposition(nitrogen=1.140841432, CO2=0.607605069, methane=94.90924895, ethane=2.480677384, propane=0.319357855, i_butane=0.154760057, n_butane=0.081099138, i_pentane=0.074745555, n_pentane=0.033999676, n_hexane=0.197664882)
    DRY_MW_18P3 = FluidComposition(nitrogen=1.6545, CO2=0.8396, methane=89.3891, ethane=5.101, propane=1.7083, i_butane=0.4718, n_butane=0.385, i_pentane=0.1155, n_pentane=0.0793, n_hexane=0.2559)
    MEDIUM_MW_19P4 = FluidComposition(nitrogen=0.74373, CO2=2.415619, methane=85.60145, ethane=6.707826, propane=2.611471, i_butane=0.45077, n_butane=0.691702, i_pentane=0.210714, n_pentane=0.197937, n_hexane=0.368786)
    RICH_MW_21P4 = FluidComposition(nitrogen=0.682785869, CO2=2.466921329, methane=79.57192993, ethane=5.153816223, propane=9.679747581, i_butane=0.691399336, n_butane=1.174334645, i_pentane=0.208390206, n_pentane=0.201853022, n_hexane=0.16881974)
    ULTRA_RICH_MW_24P6 = FluidComposition(nitrogen=3.433045573, CO2=0.341296928, methane=62.50752861, ethane=15.64946798, propane=13.2202369, i_butane=1.606103192, n_butane=2.479421803, i_pentane=0.351335073, n_pentane=0.291106204, n_hexane=0.120457739)
    _predefined_fluid_composition_mapper = {EcalcYamlKeywords.models_type_fluid_predefined_gas_type_dry: DRY_MW_18P3, EcalcYamlKeywords.models_type_fluid_predefined_gas_ultra_dry: ULTRA_DRY_MW_17P1, EcalcYamlKeywords.models_type_fluid_predefined_gas_type_medium: MEDIUM_MW_19P4, EcalcYamlKeywords.models_type_fluid_predefined_gas_type_rich: RICH_MW_21P4, EcalcYamlKeywords.models_type_fluid_predefined_gas_ultra_rich: ULTRA_RICH_MW_24P6}
    _eos_model_mapper = {EcalcYamlKeywords.models_type_fluid_eos_model_pr: EoSModel.PR, EcalcYamlKeywords.models_type_fluid_eos_model_srk: EoSModel.SRK, EcalcYamlKeywords.models_type_fluid_eos_model_gerg_pr: EoSModel.GERG_PR, EcalcYamlKeywords.models_type_fluid_eos_model_gerg_srk: EoSModel.GERG_SRK}


@target("libecalc.presentation.yaml.mappers.fluid_mapper.predefined_fluid_model_mapper", props=["C25"])
def f_predefined_fluid_model_mapper(model_config):
    predefined_composition_type = model_config.gas_type
    eos_model_type = model_config.eos_model
    return FluidModel(eos_model=_eos_model_mapper.get(eos_model_type), composition=_predefined_fluid_composition_mapper.get(predefined_composition_type))


@target("libecalc.presentation.yaml.mappers.fluid_mapper.composition_fluid_model_mapper", props=["C25"])
def f_composition_fluid_model_mapper(model_config):
    user_defined_composition = model_config.composition
    if user_defined_composition is None:
        raise EcalcValidationException('User defined composition not found in Yaml keywords')
    eos_model_type = model_config.eos_model
    eos_model = _eos_model_mapper.get(eos_model_type)
    return FluidModel(eos_model=eos_model, composition=FluidComposition(water=user_defined_composition.water, nitrogen=user_defined_composition.nitrogen, CO2=user_defined_composition.CO2, methane=user_defined_composition.methane, ethane=user_defined_composition.ethane, propane=user_defined_composition.propane, i_butane=user_defined_composition.i_butane, n_butane=user_defined_composition.n_butane, i_pentane=user_defined_composition.i_pentane, n_pentane=user_defined_composition.n_pentane, n_hexane=user_defined_composition.n_hexane))


@target("libecalc.presentation.yaml.mappers.fluid_mapper.fluid_definition_mapper", props=["C25"])
def f_fluid_definition_mapper(definition, expression_evaluator):
    match definition:
        case YamlPredefinedFluidDefinition():
            return predefined_fluid_definition_mapper(definition, expression_evaluator)
        case YamlCompositionFluidDefinition():
            return composition_fluid_definition_mapper(definition, expression_evaluator)
        case _:
            assert_never(definition)


@target("libecalc.presentation.yaml.mappers.fluid_mapper.predefined_fluid_definition_mapper", props=["C25"])
def f_predefined_fluid_definition_mapper(model_config, expression_evaluator):
    predefined_composition = _predefined_fluid_composition_mapper[model_config.gas_type]
    return _create_time_series_fluid_model(eos_model_type=model_config.eos_model, composition=predefined_composition, expression_evaluator=expression_evaluator)


@target("libecalc.presentation.yaml.mappers.fluid_mapper.composition_fluid_definition_mapper", props=["C25"])
def f_composition_fluid_definition_mapper(model_config, expression_evaluator):
    return _create_time_series_fluid_model(eos_model_type=model_config.eos_model, composition=model_config.composition, expression_evaluator=expression_evaluator)


@target("libecalc.presentation.yaml.mappers.fluid_mapper._create_time_series_fluid_model", props=["C25"])
def f_create_time_series_fluid_model(eos_model_type, composition, expression_evaluator):

    def time_series_expression(expression):
        return TimeSeriesExpression(expression=expression, expression_evaluator=expression_evaluator)
    return TimeSeriesFluidModel(eos_model=_eos_model_mapper[eos_model_type], composition=TimeSeriesFluidComposition(water=time_series_expression(composition.water), nitrogen=time_series_expression(composition.nitrogen), CO2=time_series_expression(composition.CO2), methane=time_series_expression(composition.methane), ethane=time_series_expression(composition.ethane), propane=time_series_expression(composition.propane), i_butane=time_series_expression(composition.i_butane), n_butane=time_series_expression(composition.n_butane), i_pentane=time_series_expression(composition.i_pentane), n_pentane=time_series_expression(composition.n_pentane), n_hexane=time_series_expression(composition.n_hexane)))


@target("libecalc.presentation.yaml.mappers.model._pressure_control_mapper", props=["C25"])
def f_pressure_control_mapper(model_config):
    return FixedSpeedPressureControl(model_config.pressure_control.value)


@target("libecalc.presentation.yaml.mappers.model.InvalidChartResourceException.__init__", props=["C25"])
def InvalidChartResourceException_init(self, message, file_mark, resource_name):
    self.message = message
    self._resource_file_mark = file_mark
    self.resource_name = resource_name
    super().__init__(message)


@target("libecalc.presentation.yaml.mappers.model.InvalidChartResourceException.location", props=["C25"])
def InvalidChartResourceException_location(self):
    return Location([self.resource_name])


@target("libecalc.presentation.yaml.mappers.model.InvalidChartResourceException.file_context", props=["C25"])
def InvalidChartResourceException_file_context(self):
    return FileContext(name=self.resource_name, start=self._file_mark)


@target("libecalc.presentation.yaml.mappers.model.InvalidChartResourceException._file_mark", props=["C25"])
def InvalidChartResourceException_file_mark(self):
    if self._resource_file_mark is not None:
        return FileMark(line_number=self._resource_file_mark.row, column=self._resource_file_mark.column)
    else:
        return None


@target("libecalc.presentation.yaml.mappers.model.single_speed_compressor_chart_mapper", props=["C25"])
def f_single_speed_compressor_chart_mapper(model_config, resources, control_margin):
    curve_config = model_config.curve
    if isinstance(curve_config, YamlFile):
        resource_name = curve_config.file
        resource = resources.get(resource_name)
        if resource is None:
            raise ValueError()
        try:
            chart_data = UserDefinedChartData.from_resource(resource, units=model_config.units, is_single_speed=True, control_margin=control_margin)
        except InvalidResourceException as e:
            raise InvalidChartResourceException(message=str(e), file_mark=e.file_mark, resource_name=resource_name)
    else:
        chart_data = UserDefinedChartData.from_yaml_curves([curve_config], units=model_config.units, control_margin=control_margin)
    return chart_data


@target("libecalc.presentation.yaml.mappers.model.variable_speed_compressor_chart_mapper", props=["C25"])
def f_variable_speed_compressor_chart_mapper(model_config, resources, control_margin):
    curve_config = model_config.curves
    if isinstance(curve_config, YamlFile):
        resource_name = curve_config.file
        resource = resources.get(resource_name)
        if resource is None:
            raise EcalcValidationException(f"Resource '{resource_name}' not found for variable speed chart.")
        try:
            chart_data = UserDefinedChartData.from_resource(resource, units=model_config.units, is_single_speed=False, control_margin=control_margin)
        except InvalidResourceException as e:
            raise InvalidChartResourceException(message=str(e), file_mark=e.file_mark, resource_name=resource_name)
    else:
        chart_data = UserDefinedChartData.from_yaml_curves(curve_config, units=model_config.units, control_margin=control_margin)
    return chart_data


@target("libecalc.presentation.yaml.mappers.model._generic_from_design_point_compressor_chart_mapper", props=["C25"])
def f_generic_from_design_point_compressor_chart_mapper(model_config):
    design_rate = model_config.design_rate
    design_polytropic_head = model_config.design_head
    polytropic_efficiency = model_config.polytropic_efficiency
    units = model_config.units
    design_rate_actual_m3_per_hour = convert_rate_to_am3_per_hour(rate_values=[design_rate], input_unit=YAML_UNIT_MAPPING[units.rate])[0]
    design_polytropic_head_joule_per_kg = convert_head_to_joule_per_kg(head_values=[design_polytropic_head], input_unit=YAML_UNIT_MAPPING[units.head])[0]
    polytropic_efficiency_fraction = convert_efficiency_to_fraction(efficiency_values=[polytropic_efficiency], input_unit=YAML_UNIT_MAPPING[units.efficiency])[0]
    return CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=design_rate_actual_m3_per_hour, design_head_joule_per_kg=design_polytropic_head_joule_per_kg, polytropic_efficiency=polytropic_efficiency_fraction)


@target("libecalc.presentation.yaml.mappers.model.map_yaml_to_fixed_speed_pressure_control", props=["C25"])
def f_map_yaml_to_fixed_speed_pressure_control(yaml_control):
    mapping = {YamlPressureControl.UPSTREAM_CHOKE: FixedSpeedPressureControl.UPSTREAM_CHOKE, YamlPressureControl.DOWNSTREAM_CHOKE: FixedSpeedPressureControl.DOWNSTREAM_CHOKE, YamlPressureControl.INDIVIDUAL_ASV_PRESSURE: FixedSpeedPressureControl.INDIVIDUAL_ASV_PRESSURE, YamlPressureControl.INDIVIDUAL_ASV_RATE: FixedSpeedPressureControl.INDIVIDUAL_ASV_RATE, YamlPressureControl.COMMON_ASV: FixedSpeedPressureControl.COMMON_ASV}
    return mapping[yaml_control]


@target("libecalc.presentation.yaml.mappers.process.build_sections.ProcessSectionBuilder.__init__", props=["C25"])
def ProcessSectionBuilder_init(self):
    self._partitioner = ProcessPartitioner()
    self._validator = MappedSectionValidator()


@target("libecalc.presentation.yaml.mappers.process.build_sections.ProcessSectionBuilder.partition_and_validate", props=["C25"])
def ProcessSectionBuilder_partition_and_validate(self, process_unit_map, unit_name_to_id, pipeline_constraints):
    sections = self._partitioner.partition(process_unit_map=process_unit_map, unit_name_to_id=unit_name_to_id, pipeline_constraints=pipeline_constraints)
    self._validator.validate(sections)
    return sections


@target("libecalc.presentation.yaml.mappers.process.build_sections.ProcessSectionBuilder.assemble_sections", props=["C25"])
def ProcessSectionBuilder_assemble_sections(mapped_sections, fluid_service):
    return [assemble_process_section(process_units=s.process_units, anti_surge=s.constraint.anti_surge, pressure_control=s.constraint.pressure_control, fluid_service=fluid_service) for s in mapped_sections]


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator", props=["C25"])
class K99_constants:
    _PRESSURE_CONTROL_REQUIRES_ANTI_SURGE = {'COMMON_ASV': AntiSurgeType.COMMON_ASV, 'INDIVIDUAL_ASV_RATE': AntiSurgeType.INDIVIDUAL_ASV, 'INDIVIDUAL_ASV_PRESSURE': AntiSurgeType.INDIVIDUAL_ASV}


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator.validate", props=["C25"])
def MappedSectionValidator_validate(self, sections):
    for s in sections:
        self._validate_section_has_compressor(s)
        self._validate_strategy_compatibility(s)
        self._validate_anti_surge_vs_compressors(s)
        self._validate_common_asv_units(s)


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator._validate_strategy_compatibility", props=["C25"])
def MappedSectionValidator_validate_strategy_compatibility(s):
    required = _PRESSURE_CONTROL_REQUIRES_ANTI_SURGE.get(s.constraint.pressure_control)
    if required and s.constraint.anti_surge != required:
        raise EcalcValidationException(f"PRESSURE_CONTROL '{s.constraint.pressure_control}' requires ANTI_SURGE '{required}', got '{s.constraint.anti_surge}'")


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator._validate_anti_surge_vs_compressors", props=["C25"])
def MappedSectionValidator_validate_anti_surge_vs_compressors(self, s):
    location = self._section_location(s)
    has_compressors = any((isinstance(u, Compressor) for u in s.process_units))
    if has_compressors and s.constraint.anti_surge is AntiSurgeType.NO_ASV:
        raise EcalcValidationException(f"'{s.constraint.anti_surge}' cannot be used for {location}. Sections with compressors must use  COMMON_ASV or INDIVIDUAL_ASV anti-surge.")
    if not has_compressors and s.constraint.anti_surge is not AntiSurgeType.NO_ASV:
        raise EcalcValidationException(f"'{s.constraint.anti_surge}' cannot be used for {location}. Sections without cannot have anti-surge.")


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator._validate_section_has_compressor", props=["C25"])
def MappedSectionValidator_validate_section_has_compressor(self, s):
    if not any((isinstance(u, Compressor) for u in s.process_units)):
        raise EcalcValidationException(f'Process sections without compressors are not supported yet for {self._section_location(s)}.')


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator._validate_common_asv_units", props=["C25"])
def MappedSectionValidator_validate_common_asv_units(self, s):
    location = self._section_location(s)
    if s.constraint.anti_surge == 'COMMON_ASV' and any((isinstance(u, (Mixer, Splitter)) for u in s.process_units)):
        raise EcalcValidationException(f'COMMON_ASV cannot be used for {location} because the section contains a mixer or splitter.')


@target("libecalc.presentation.yaml.mappers.process.mapped_section_validator.MappedSectionValidator._section_location", props=["C25"])
def MappedSectionValidator_section_location(section):
    if section.constraint.process_unit is not None:
        return f"constraint at process unit '{section.constraint.process_unit}'"
    return 'constraint at pipeline outlet'


@target("libecalc.presentation.yaml.mappers.process.process_partitioner.ProcessPartitioner.partition", props=["C25"])
def ProcessPartitioner_partition(process_unit_map, unit_name_to_id, pipeline_constraints):
    process_units = list(process_unit_map.values())
    constraint_by_unit_id = {}
    terminal_constraint = None
    for constraint in pipeline_constraints:
        if constraint.process_unit is None:
            if terminal_constraint is not None:
                raise EcalcValidationException('Only one constraint can target the process pipeline outlet.')
            terminal_constraint = constraint
            continue
        unit_id = unit_name_to_id.get(constraint.process_unit)
        if unit_id is None:
            raise EcalcValidationException(f"Constraint references unknown unit '{constraint.process_unit}'.")
        if unit_id in constraint_by_unit_id:
            raise EcalcValidationException(f"Two constraints cannot point to the same unit '{constraint.process_unit}'.")
        constraint_by_unit_id[unit_id] = constraint
    sections = []
    current_units = []
    for process_unit in process_units:
        current_units.append(process_unit)
        constraint = constraint_by_unit_id.get(process_unit.get_id())
        if constraint is None:
            continue
        sections.append(MappedSection(process_units=current_units, constraint=constraint, target_process_unit_id=current_units[-1].get_id()))
        current_units = []
    if terminal_constraint is not None:
        sections.append(MappedSection(process_units=current_units, constraint=terminal_constraint, target_process_unit_id=current_units[-1].get_id()))
    elif any((isinstance(unit, Compressor) for unit in current_units)):
        raise EcalcValidationException('A compressor cannot appear after the last constraint; every compressor must be covered by a constraint.')
    elif sections and current_units:
        last = sections[-1]
        sections[-1] = MappedSection(process_units=[*last.process_units, *current_units], constraint=last.constraint, target_process_unit_id=last.target_process_unit_id)
    return sections


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.StreamDistributionItem.__init__", props=["C25"])
def StreamDistributionItem_init(self, feasibility_solver, target_pressure):
    self._feasibility_solver = feasibility_solver
    self._target_pressure = target_pressure


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.StreamDistributionItem.is_valid", props=["C25"])
def StreamDistributionItem_is_valid(self, inlet_stream):
    return self.get_excess_rate(inlet_stream) == 0.0


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.StreamDistributionItem.get_excess_rate", props=["C25"])
def StreamDistributionItem_get_excess_rate(self, inlet_stream):
    return self._feasibility_solver.get_excess_rate(inlet_stream=inlet_stream, target_pressure=self._target_pressure)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper.__init__", props=["C25"])
def ProcessSimulationMapper_init(self, expression_evaluator, fluid_service, reference_service, process_simulation_period, resources, ecalc_event_service):
    self._expression_evaluator = expression_evaluator.get_subset_for_period(process_simulation_period)
    self._fluid_service = fluid_service
    self._reference_service = reference_service
    self._resources = resources
    self._ecalc_event_service = ecalc_event_service


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._resolve_pipeline_reference", props=["C25"])
def ProcessSimulationMapper_resolve_pipeline_reference(self, ref):
    if isinstance(ref, str):
        return self._reference_service.get_process_pipeline(reference=ref)
    else:
        return ref


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._get_compressor_chart", props=["C25"])
def ProcessSimulationMapper_get_compressor_chart(self, yaml_compressor_model_chart):
    yaml_chart = yaml_compressor_model_chart.chart
    yaml_curves = yaml_chart.curves
    control_margin = yaml_compressor_model_chart.control_margin
    control_margin_unit = Unit.FRACTION if control_margin.unit == YamlControlMarginUnits.FRACTION else Unit.PERCENTAGE
    control_margin_fraction = control_margin_unit.to(Unit.FRACTION)(control_margin.value)
    if isinstance(yaml_curves, YamlFile):
        resource_name = yaml_curves.file
        resource = self._resources.get(resource_name)
        if resource is None:
            raise EcalcValidationException(f"Resource '{resource_name}' not found for variable speed chart.")
        if 'SPEED' not in resource.get_headers():
            raise EcalcValidationException(f"Chart resource '{resource_name}' is missing required 'SPEED' column. For single-speed charts, use the same speed value for all rows.")
        try:
            return UserDefinedChartData.from_resource(resource, units=yaml_chart.units, is_single_speed=False, control_margin=control_margin_fraction)
        except InvalidResourceException as e:
            raise InvalidChartResourceException(message=str(e), file_mark=e.file_mark, resource_name=resource_name)
    else:
        return UserDefinedChartData.from_yaml_curves(yaml_curves, units=yaml_chart.units, control_margin=control_margin_fraction)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._get_compressor", props=["C25"])
def ProcessSimulationMapper_get_compressor(self, yaml_compressor):
    chart = self._get_compressor_chart(yaml_compressor_model_chart=yaml_compressor.compressor_model)
    return Compressor(compressor_chart=chart, fluid_service=self._fluid_service)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._resolve_stream_reference", props=["C25"])
def ProcessSimulationMapper_resolve_stream_reference(self, ref):
    if isinstance(ref, str):
        return self._reference_service.get_stream(reference=ref)
    else:
        return ref


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._resolve_fluid_definition", props=["C25"])
def ProcessSimulationMapper_resolve_fluid_definition(self, reference):
    if isinstance(reference, str):
        return self._reference_service.get_fluid_definition(reference)
    return reference


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._map_conditions", props=["C25"])
def ProcessSimulationMapper_map_conditions(self, conditions):
    if conditions is None:
        return None
    if isinstance(conditions, list):
        return handle_condition_list(conditions)
    return conditions


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._get_regularity", props=["C25"])
def ProcessSimulationMapper_get_regularity(self):
    return Regularity(expression_evaluator=self._expression_evaluator, target_period=self._expression_evaluator.get_period())


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._map_rate", props=["C25"])
def ProcessSimulationMapper_map_rate(self, yaml_rate):
    return ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=yaml_rate.value, condition=self._map_conditions(yaml_rate.conditions if yaml_rate.conditions is not None else yaml_rate.condition)), consumption_rate_type=yaml_rate.type, regularity=self._get_regularity())


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._map_pressure", props=["C25"])
def ProcessSimulationMapper_map_pressure(self, pressure):
    return TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=pressure)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._map_temperature", props=["C25"])
def ProcessSimulationMapper_map_temperature(self, temperature):
    return TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=temperature)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._map_fluid_definition", props=["C25"])
def ProcessSimulationMapper_map_fluid_definition(self, fluid_definition):
    return fluid_definition_mapper(fluid_definition, expression_evaluator=self._expression_evaluator)


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper._validate_and_map_pipeline_events", props=["C25"])
def ProcessSimulationMapper_validate_and_map_pipeline_events(self, yaml_pipeline, unit_name_to_id):
    events = []
    for yaml_event in yaml_pipeline.events:
        ecalc_event = self._ecalc_event_service.get_event_by_process_name(yaml_event.ref)
        if ecalc_event is None:
            raise EcalcValidationException(f"Pipeline event '{yaml_event.ref}' does not match any known process event.")
        if (change_to_yaml_process_unit := self._reference_service.get_process_unit(yaml_event.change_to)) is None:
            raise EcalcValidationException(f"Pipeline event CHANGE_TO '{yaml_event.change_to}' does not refer to a known process unit.")
        match change_to_yaml_process_unit:
            case YamlCompressorDefinition():
                change_to_unit = self._get_compressor(change_to_yaml_process_unit)
            case _:
                raise EcalcValidationException(f"Pipeline event CHANGE_TO '{change_to_yaml_process_unit}' does not match any compressor (chart) unit.")
        events.append(PipelineEvent(action=PipelineEventAction(yaml_event.type.value), change_target=unit_name_to_id[yaml_event.change_target], change_to=change_to_unit, change_type=PipelineEventChangeType(yaml_event.change_type.value), change_time=ecalc_event.start))
    return events


@target("libecalc.presentation.yaml.mappers.process_simulation_mapper.ProcessSimulationMapper.map_process_simulation", props=["C25"], modular=True)
def ProcessSimulationMapper_map_process_simulation(self, yaml_process_simulation, process_periods):
    process_pipelines = []
    process_problems = []
    predefined_configurations = {}
    process_pipeline_reference_to_id_map = {}
    section_builder = ProcessSectionBuilder()
    for yaml_compressor_train_item in yaml_process_simulation.targets:
        problem_configuration_handlers = []
        shaft = VariableSpeedShaft()
        item = self._resolve_pipeline_reference(yaml_compressor_train_item)
        process_unit_map = {}
        compressor_ids = []
        unit_name_to_id = {}
        problem_time_series_configurations = {}
        for yaml_pipeline_item in item.process_units:
            yaml_process_unit = yaml_pipeline_item.target
            process_unit_name = yaml_pipeline_item.name
            if isinstance(yaml_process_unit, str):
                yaml_process_unit = self._reference_service.get_process_unit(yaml_process_unit)
            match yaml_process_unit:
                case YamlCompressorDefinition():
                    unit = self._get_compressor(yaml_process_unit)
                    compressor_ids.append(unit.get_id())
                case YamlPressureDropperDefinition():
                    unit = PressureDropper(fluid_service=self._fluid_service)
                    problem_time_series_configurations[unit.get_id()] = TimeSeriesPressureDropperConfiguration(pressure_drop_in_bara=self._map_pressure(yaml_process_unit.pressure_drop))
                case YamlTemperatureSetterDefinition():
                    unit = TemperatureSetter(fluid_service=self._fluid_service)
                    problem_time_series_configurations[unit.get_id()] = TimeSeriesTemperatureSetterConfiguration(temperature_in_celsius=self._map_temperature(yaml_process_unit.temperature))
                case YamlLiquidRemoverDefinition():
                    unit = LiquidRemover(fluid_service=self._fluid_service)
                case YamlMixerDefinition():
                    yaml_stream = self._resolve_stream_reference(yaml_process_unit.sidestream)
                    yaml_fluid_definition = self._resolve_fluid_definition(yaml_stream.fluid)
                    unit = Mixer(fluid_service=self._fluid_service)
                    problem_time_series_configurations[unit.get_id()] = TimeSeriesMixerConfiguration(sidestream=TimeSeriesStream(pressure_bara=self._map_pressure(yaml_stream.pressure), standard_rate_m3_per_day=self._map_rate(yaml_stream.rate), temperature_kelvin=self._map_temperature(yaml_stream.temperature), fluid_model=self._map_fluid_definition(yaml_fluid_definition)))
                case YamlSplitterDefinition():
                    unit = Splitter(fluid_service=self._fluid_service)
                    problem_time_series_configurations[unit.get_id()] = TimeSeriesSplitterConfiguration(offtake_rate=self._map_rate(yaml_process_unit.offtake_rate))
                case _:
                    allowed_types = [t.__name__ for t in get_args(get_args(YamlProcessUnitDefinition)[0])]
                    raise EcalcValidationException(f"Process unit of type '{type(yaml_process_unit).__name__}' is not allowed in a process pipeline. Allowed types are: {', '.join(allowed_types)}.")
            process_unit_map[unit.get_id()] = unit
            if process_unit_name is not None:
                if process_unit_name in unit_name_to_id:
                    raise EcalcValidationException(f"Duplicate process unit name '{process_unit_name}'. Process unit names must be unique within a process.")
                unit_name_to_id[process_unit_name] = unit.get_id()
        for compressor_id in compressor_ids:
            compressor = process_unit_map[compressor_id]
            shaft.connect(compressor)
        problem_configuration_handlers.append(shaft)
        process_pipeline_sections = []
        process_problem_sections = []
        pipeline_constraints = yaml_process_simulation.constraints.get(item.name)
        if not pipeline_constraints:
            raise EcalcValidationException(f"Missing constraint for process system '{item.name}'")
        mapped_sections = section_builder.partition_and_validate(process_unit_map=process_unit_map, unit_name_to_id=unit_name_to_id, pipeline_constraints=pipeline_constraints)
        assembled_sections = section_builder.assemble_sections(mapped_sections=mapped_sections, fluid_service=self._fluid_service)
        for nr, assembled_section in enumerate(assembled_sections):
            process_section_process_units = list(assembled_section.process_units)
            if nr == 0:
                process_section_process_units.insert(0, Inlet())
            if nr == len(mapped_sections) - 1:
                process_section_process_units.append(Outlet())
            process_pipeline_sections.append(ProcessPipelineSection(process_units=process_section_process_units))
        pipeline_events = self._validate_and_map_pipeline_events(yaml_pipeline=item, unit_name_to_id=unit_name_to_id)
        process_pipeline = ProcessPipeline(name=item.name, process_pipeline_sections=process_pipeline_sections, events=pipeline_events, process_periods=process_periods)
        for nr, (pipeline_section, mapped_section, assembled_section) in enumerate(zip(process_pipeline_sections, mapped_sections, assembled_sections, strict=True)):
            constraint_position = -2
            if nr == len(process_pipeline_sections):
                constraint_position = -1
            target_process_unit_id = pipeline_section.get_process_units()[constraint_position].get_id()
            try:
                constraint = Constraint(outlet_pressure=TimeSeriesExpression(expression=mapped_section.constraint.outlet_pressure, expression_evaluator=self._expression_evaluator), target_process_unit_id=target_process_unit_id, target_process_connection_id=next((process_unit_connection.get_id() for process_unit_connection in process_pipeline.get_process_unit_connections() if process_unit_connection.get_from_process_unit_id() == target_process_unit_id)))
            except StopIteration:
                raise ProgrammingError(f"Not able to set constraint on OUTLET of process unit '{mapped_section.target_process_unit_id}' because the Connection ID was not found.")
            process_problem_sections.append(ProcessProblemSection(process_pipeline_section_id=pipeline_section.get_id(), constraint=constraint, pressure_control=PressureControlConfig(type=mapped_section.constraint.pressure_control), anti_surge=AntiSurgeConfig(mapped_section.constraint.anti_surge)))
            problem_configuration_handlers.extend(assembled_section.configuration_handlers)
        predefined_configurations[process_pipeline.get_id()] = problem_time_series_configurations
        process_pipeline_reference_to_id_map[item.name] = process_pipeline.get_id()
        process_pipelines.append(process_pipeline)
        process_problems.append(ProcessProblem(process_problem_sections=process_problem_sections, configuration_handlers=problem_configuration_handlers, process_pipeline_id=process_pipeline.get_id()))
    for process_pipeline_reference in yaml_process_simulation.constraints:
        process_pipeline_id = process_pipeline_reference_to_id_map.get(process_pipeline_reference)
        if process_pipeline_id is None:
            raise EcalcValidationException(f"Constraint specified for unknown process system '{process_pipeline_reference}'")
    yaml_stream_distribution = yaml_process_simulation.stream_distribution
    match yaml_stream_distribution.method:
        case 'COMMON_STREAM':
            settings = []
            for setting in yaml_stream_distribution.settings:
                rate_fractions = []
                for rate_fraction in setting.rate_fractions:
                    rate_fractions.append(TimeSeriesExpression(expression=rate_fraction, expression_evaluator=self._expression_evaluator, condition=None))
                overflows = []
                for overflow in setting.overflow or []:
                    try:
                        to_id = process_pipeline_reference_to_id_map[overflow.to_reference]
                    except KeyError as e:
                        raise EcalcValidationException(f"Process system reference '{overflow.to_reference}' defined in overflow does not exist.")
                    try:
                        from_id = process_pipeline_reference_to_id_map[overflow.from_reference]
                    except KeyError as e:
                        raise EcalcValidationException(f"Process system reference '{overflow.from_reference}' defined in overflow does not exist.")
                    overflows.append(Overflow(to_id=to_id, from_id=from_id))
                settings.append(CommonStreamSettings(rate_fractions=rate_fractions, overflow=overflows))
            yaml_stream = self._resolve_stream_reference(yaml_stream_distribution.inlet_stream)
            yaml_fluid_definition = self._resolve_fluid_definition(yaml_stream.fluid)
            inlet_stream = TimeSeriesStream(pressure_bara=self._map_pressure(yaml_stream.pressure), standard_rate_m3_per_day=self._map_rate(yaml_stream.rate), temperature_kelvin=self._map_temperature(yaml_stream.temperature), fluid_model=self._map_fluid_definition(yaml_fluid_definition))
            stream_distribution = CommonStreamDistributionConfig(inlet_stream=inlet_stream, settings=settings)
        case 'INDIVIDUAL_STREAMS':
            inlet_streams = []
            for inlet_stream in yaml_stream_distribution.inlet_streams:
                yaml_stream = self._resolve_stream_reference(inlet_stream)
                yaml_fluid_definition = self._resolve_fluid_definition(yaml_stream.fluid)
                inlet_streams.append(TimeSeriesStream(pressure_bara=self._map_pressure(yaml_stream.pressure), standard_rate_m3_per_day=self._map_rate(yaml_stream.rate), temperature_kelvin=self._map_temperature(yaml_stream.temperature), fluid_model=self._map_fluid_definition(yaml_fluid_definition)))
            stream_distribution = IndividualStreamDistributionConfig(inlet_streams=inlet_streams)
        case _:
            assert_never(yaml_stream_distribution.method)
    return (process_pipelines, ProcessSimulation(name=yaml_process_simulation.name, process_problems=process_problems, stream_distribution=stream_distribution, process_periods=process_periods, process_configurations=predefined_configurations))


@target("libecalc.presentation.yaml.mappers.pump_process_simulation_mapper.PumpProcessSimulationMapper.__init__", props=["C25"])
def PumpProcessSimulationMapper_init(self, expression_evaluator, reference_service, resources, process_simulation_period):
    self._expression_evaluator = expression_evaluator.get_subset_for_period(process_simulation_period)
    self._reference_service = reference_service
    self._resources = resources


@target("libecalc.presentation.yaml.mappers.pump_process_simulation_mapper.PumpProcessSimulationMapper.map", props=["C25"])
def PumpProcessSimulationMapper_map(self, yaml_process_simulation):
    chart_data = self._get_chart_data(yaml_process_simulation.pump_model.chart)
    pump = Pump(pump_chart=chart_data, minimum_flow_rate_m3_per_hour=yaml_process_simulation.pump_model.minimum_flow_rate)
    simulation = PumpProcessSimulation(pump=pump, name=yaml_process_simulation.name)
    regularity = Regularity(expression_evaluator=self._expression_evaluator, target_period=self._expression_evaluator.get_period())
    rate = ExpressionTimeSeriesFlowRate(time_series_expression=TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=yaml_process_simulation.inlet.rate), regularity=regularity)
    rate_values = rate.get_stream_day_values()
    suction_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=yaml_process_simulation.inlet.pressure))
    discharge_pressure = ExpressionTimeSeriesPressure(time_series_expression=TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=yaml_process_simulation.required_discharge_pressure))
    density = ExpressionTimeSeriesFluidDensity(time_series_expression=TimeSeriesExpression(expression_evaluator=self._expression_evaluator, expression=yaml_process_simulation.inlet.density))
    suction_values = suction_pressure.get_values()
    discharge_values = discharge_pressure.get_values()
    density_values = density.get_values()
    periods = list(rate.get_periods())
    operating_inputs = [self._to_operating_input(rate_value=rate_value, suction_pressure_bara=suction, required_discharge_pressure_bara=discharge, density_kg_per_m3=density_value) for rate_value, suction, discharge, density_value in zip(rate_values, suction_values, discharge_values, density_values, strict=True)]
    if len(periods) != len(operating_inputs):
        raise ValueError()
    return (simulation, operating_inputs, periods)


@target("libecalc.presentation.yaml.mappers.pump_process_simulation_mapper.PumpProcessSimulationMapper._to_operating_input", props=["C25"])
def PumpProcessSimulationMapper_to_operating_input(self, rate_value, suction_pressure_bara, required_discharge_pressure_bara, density_kg_per_m3):
    self._require_positive(suction_pressure_bara, 'suction pressure [bara]')
    self._require_positive(density_kg_per_m3, 'inlet density [kg/m3]')
    inlet_stream = LiquidStream.from_volumetric_rate(volumetric_rate_m3_per_day=rate_value, pressure_bara=suction_pressure_bara, density_kg_per_m3=density_kg_per_m3)
    if rate_value > 0:
        self._require_positive(required_discharge_pressure_bara, 'required discharge pressure [bara]')
        discharge = required_discharge_pressure_bara
    else:
        discharge = required_discharge_pressure_bara if required_discharge_pressure_bara > 0 else suction_pressure_bara
    return PumpOperatingInput(inlet_stream=inlet_stream, required_discharge_pressure_bara=discharge)


@target("libecalc.presentation.yaml.mappers.pump_process_simulation_mapper.PumpProcessSimulationMapper._require_positive", props=["C25"])
def PumpProcessSimulationMapper_require_positive(value, subject):
    if value <= 0:
        raise EcalcValidationException(f'Pump {subject} must be greater than 0; got {value}.')


@target("libecalc.presentation.yaml.mappers.pump_process_simulation_mapper.PumpProcessSimulationMapper._get_chart_data", props=["C25"])
def PumpProcessSimulationMapper_get_chart_data(self, reference):
    model = self._reference_service.get_pump_model(reference)
    if model.head_margin != 0.0:
        raise EcalcValidationException('HEAD_MARGIN is not supported by the new pump process domain (points above the maximum head are flagged infeasible instead of snapped to it).')
    resource = self._resources.get(model.file)
    if resource is None:
        raise EcalcValidationException(f"Pump chart resource '{model.file}' was not found.")
    try:
        return UserDefinedChartData.from_resource(resource, units=model.units, is_single_speed=isinstance(model, YamlPumpChartSingleSpeed))
    except InvalidResourceException as error:
        raise EcalcValidationException(str(error))


@target("libecalc.presentation.yaml.mappers.simplified_train_mapping_utils.CompressorOperationalTimeSeries.from_time_series", props=["C25"])
def CompressorOperationalTimeSeries_from_time_series(cls, rates, suction_pressure, discharge_pressure):
    return cls(rates=np.asarray(rates.get_stream_day_values(), dtype=np.float64), suction_pressures=np.asarray(suction_pressure.get_values(), dtype=np.float64) if suction_pressure is not None else None, discharge_pressures=np.asarray(discharge_pressure.get_values(), dtype=np.float64) if discharge_pressure is not None else None)


@target("libecalc.presentation.yaml.mappers.simplified_train_mapping_utils.calculate_number_of_stages", props=["C25"])
def f_calculate_number_of_stages(maximum_pressure_ratio_per_stage, discharge_pressures, suction_pressures):
    pressure_ratios = discharge_pressures / suction_pressures
    maximum_train_pressure_ratio = max(pressure_ratios)
    x = math.log(maximum_train_pressure_ratio) / math.log(maximum_pressure_ratio_per_stage)
    return math.ceil(x)


@target("libecalc.presentation.yaml.mappers.utils", props=["C25"])
class K131_constants:
    YAML_UNIT_MAPPING = {EcalcYamlKeywords.consumer_chart_efficiency_unit_factor: Unit.FRACTION, EcalcYamlKeywords.consumer_chart_efficiency_unit_percentage: Unit.PERCENTAGE, EcalcYamlKeywords.consumer_chart_head_unit_kj_per_kg: Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG, EcalcYamlKeywords.consumer_chart_head_unit_joule_per_kg: Unit.POLYTROPIC_HEAD_JOULE_PER_KG, EcalcYamlKeywords.consumer_chart_head_unit_m: Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN, EcalcYamlKeywords.consumer_chart_rate_unit_actual_volume_rate: Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR, EcalcYamlKeywords.models_type_compressor_train_stage_control_margin_unit_factor: Unit.FRACTION, EcalcYamlKeywords.models_type_compressor_train_stage_control_margin_unit_percentage: Unit.PERCENTAGE}


@target("libecalc.presentation.yaml.mappers.utils.convert_rate_to_am3_per_hour", props=["C25"])
def f_convert_rate_to_am3_per_hour(rate_values, input_unit):
    if input_unit == Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR:
        return rate_values
    else:
        msg = f'Rate unit {input_unit} not (yet) supported for compressor chart.Needs to be one of {', '.join(list(ChartRateUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_head_to_joule_per_kg", props=["C25"])
def f_convert_head_to_joule_per_kg(head_values, input_unit):
    if input_unit == Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG:
        return [Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(h) for h in head_values]
    elif input_unit == Unit.POLYTROPIC_HEAD_JOULE_PER_KG:
        return head_values
    elif input_unit == Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN:
        return [Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(head) for head in head_values]
    else:
        msg = f'Chart head unit {input_unit} not (yet) supported.Must be one of {', '.join(list(ChartPolytropicHeadUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_head_to_meter_liquid_column", props=["C25"])
def f_convert_head_to_meter_liquid_column(head_values, input_unit):
    if input_unit == Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG:
        return [Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG.to(Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN)(h) for h in head_values]
    elif input_unit == Unit.POLYTROPIC_HEAD_JOULE_PER_KG:
        return [Unit.POLYTROPIC_HEAD_JOULE_PER_KG.to(Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN)(h) for h in head_values]
    elif input_unit == Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN:
        return head_values
    else:
        msg = f'Chart head unit {input_unit} not (yet) supported.Must be one of {', '.join(list(ChartPolytropicHeadUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_temperature_to_kelvin", props=["C25"])
def f_convert_temperature_to_kelvin(temperature_values, input_unit):
    if input_unit == Unit.KELVIN:
        return temperature_values
    elif input_unit == Unit.CELSIUS:
        return [Unit.CELSIUS.to(Unit.KELVIN)(temperature) for temperature in temperature_values]
    else:
        raise EcalcValidationException(f"Invalid input unit. Expected {Unit.KELVIN} or {Unit.CELSIUS}, got '{input_unit}'")


@target("libecalc.presentation.yaml.mappers.utils.convert_efficiency_to_fraction", props=["C25"])
def f_convert_efficiency_to_fraction(efficiency_values, input_unit):
    if input_unit == Unit.FRACTION:
        return efficiency_values
    elif input_unit == Unit.PERCENTAGE:
        return [Unit.PERCENTAGE.to(Unit.FRACTION)(efficiency) for efficiency in efficiency_values]
    else:
        msg = f'Efficiency unit {input_unit} not supported. Must be one of {', '.join(list(ChartEfficiencyUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_control_margin_to_fraction", props=["C25"])
def f_convert_control_margin_to_fraction(control_margin, input_unit):
    if control_margin is None:
        return None
    if input_unit == Unit.FRACTION:
        return control_margin
    elif input_unit == Unit.PERCENTAGE:
        return Unit.PERCENTAGE.to(Unit.FRACTION)(control_margin)
    else:
        msg = f'Control margin unit {input_unit} not supported. Must be one of {', '.join(list(ChartControlMarginUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_control_margin_to_fraction", props=["C25"])
def f_convert_control_margin_to_fraction_(control_margin, input_unit):
    if control_margin is None:
        return None
    if input_unit == Unit.FRACTION:
        return control_margin
    elif input_unit == Unit.PERCENTAGE:
        return Unit.PERCENTAGE.to(Unit.FRACTION)(control_margin)
    else:
        msg = f'Control margin unit {input_unit} not supported. Must be one of {', '.join(list(ChartControlMarginUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.utils.convert_control_margin_to_fraction", props=["C25"])
def f_convert_control_margin_to_fraction__(control_margin, input_unit):
    if control_margin is None:
        return None
    if input_unit == Unit.FRACTION:
        return control_margin
    elif input_unit == Unit.PERCENTAGE:
        return Unit.PERCENTAGE.to(Unit.FRACTION)(control_margin)
    else:
        msg = f'Control margin unit {input_unit} not supported. Must be one of {', '.join(list(ChartControlMarginUnit))}'
        raise EcalcValidationException(msg)


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.__init__", props=["C25"])
def MappingContext_init(self, target_period):
    self._yaml_path_map = {}
    self._yaml_component_map = {}
    self._target_period = target_period
    self._process_service = DefaultProcessService()
    self._energy_container_energy_model_builder = EnergyContainerEnergyModelBuilder()
    self._regularity_map = {}


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.get_energy_container_energy_model_builder", props=["C25"])
def MappingContext_get_energy_container_energy_model_builder(self):
    return self._energy_container_energy_model_builder


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.register_yaml_component", props=["C25"])
def MappingContext_register_yaml_component(self, yaml_path, yaml_component):
    self._yaml_path_map[yaml_path] = yaml_component
    self._yaml_component_map[yaml_component.id] = yaml_component


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.get_component_name_from_yaml_path", props=["C25"])
def MappingContext_get_component_name_from_yaml_path(self, yaml_path):
    component_context = self._yaml_path_map.get(yaml_path)
    if component_context is None:
        return None
    return component_context.name


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.get_category", props=["C25"])
def MappingContext_get_category(self, id):
    yaml_component = self._yaml_component_map[id]
    category = yaml_component.category
    if category is None:
        return None
    return TemporalModel.create(category, target_period=self._target_period)


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.register_regularity", props=["C25"])
def MappingContext_register_regularity(self, container_id, regularity):
    self._regularity_map[container_id] = regularity


@target("libecalc.presentation.yaml.mappers.yaml_mapping_context.MappingContext.get_regularity", props=["C25"])
def MappingContext_get_regularity(self, container_id):
    return self._regularity_map[container_id]


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.__init__", props=["C25"])
def YamlPath_init(self, keys=None):
    self._keys = keys or ()


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.keys", props=["C25"])
def YamlPath_keys(self):
    return self._keys


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.append", props=["C25"])
def YamlPath_append(self, key):
    return YamlPath((*self._keys, key))


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.__eq__", props=["C25"])
def YamlPath_eq(self, other):
    if isinstance(other, YamlPath):
        return self.keys == other.keys
    return False


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.__ne__", props=["C25"])
def YamlPath_ne(self, other):
    return not self.__eq__(other)


@target("libecalc.presentation.yaml.mappers.yaml_path.YamlPath.__hash__", props=["C25"])
def YamlPath_hash(self):
    return self.keys.__hash__()


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.__init__", props=["C25"])
def DefaultProcessService_init(self):
    self._compressor_process_systems = {}
    self._pump_process_systems = {}
    self._compressors_sampled = {}
    self._evaluation_inputs = {}
    self._consumer_to_model_map = {}
    self._ecalc_components = {}


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.evaluation_inputs", props=["C25"])
def DefaultProcessService_evaluation_inputs(self):
    return self._evaluation_inputs


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.compressor_process_systems", props=["C25"])
def DefaultProcessService_compressor_process_systems(self):
    return self._compressor_process_systems


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.pump_process_systems", props=["C25"])
def DefaultProcessService_pump_process_systems(self):
    return self._pump_process_systems


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.compressors_sampled", props=["C25"])
def DefaultProcessService_compressors_sampled(self):
    return self._compressors_sampled


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.ecalc_components", props=["C25"])
def DefaultProcessService_ecalc_components(self):
    return self._ecalc_components


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.consumer_to_model_map", props=["C25"])
def DefaultProcessService_consumer_to_model_map(self):
    return self._consumer_to_model_map


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.register_compressor_process_system", props=["C25"])
def DefaultProcessService_register_compressor_process_system(self, ecalc_component, compressor_process_system):
    self._ecalc_components[ecalc_component.id] = ecalc_component
    self._compressor_process_systems[ecalc_component.id] = compressor_process_system


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.register_pump_process_system", props=["C25"])
def DefaultProcessService_register_pump_process_system(self, ecalc_component, pump_process_system):
    self._ecalc_components[ecalc_component.id] = ecalc_component
    self._pump_process_systems[ecalc_component.id] = pump_process_system


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.register_evaluation_input", props=["C25"])
def DefaultProcessService_register_evaluation_input(self, ecalc_component, evaluation_input):
    self._evaluation_inputs[ecalc_component.id] = evaluation_input


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.register_compressor_sampled", props=["C25"])
def DefaultProcessService_register_compressor_sampled(self, ecalc_component, compressor_sampled):
    self._ecalc_components[ecalc_component.id] = ecalc_component
    self._compressors_sampled[ecalc_component.id] = compressor_sampled


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.map_model_to_consumer", props=["C25"])
def DefaultProcessService_map_model_to_consumer(self, consumer_id, period, ecalc_component):
    self.consumer_to_model_map[consumer_id, period] = ecalc_component.id


@target("libecalc.presentation.yaml.domain.default_process_service.DefaultProcessService.get_evaluation_input", props=["C25"])
def DefaultProcessService_get_evaluation_input(self, model_id):
    return self.evaluation_inputs.get(model_id)


@target("libecalc.presentation.yaml.domain.reference_service.InvalidReferenceException.__init__", props=["C25"])
def InvalidReferenceException_init(self, reference_type, reference, available_references=None):
    if available_references is not None:
        available_message = f'Available references: {', '.join(available_references)}'
    else:
        available_message = ''
    super().__init__(message=f"Invalid {reference_type} reference '{reference}'. {available_message}")


@target("libecalc.presentation.yaml.yaml_reference_service", props=["C25"])
class K167_constants:
    _model_parsing_order_map = {YamlModelType.FLUID: 0, YamlModelType.COMPRESSOR_CHART: 0, YamlModelType.TURBINE: 0, YamlModelType.SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.VARIABLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.SINGLE_SPEED_COMPRESSOR_TRAIN: 1, YamlModelType.VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES: 1, YamlModelType.COMPRESSOR_WITH_TURBINE: 2}


@target("libecalc.presentation.yaml.yaml_reference_service._model_parsing_order", props=["C25"])
def f_model_parsing_order(model):
    model_type = model.type
    try:
        if isinstance(model_type, YamlFacilityModelType):
            return 0
        else:
            return _model_parsing_order_map[model_type]
    except KeyError as e:
        msg = f'{model.name}:\nUnknown model type {model_type}.'
        raise EcalcError(title='Invalid model', message=msg)


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.__init__", props=["C25"])
def YamlReferenceService_init(self, configuration):
    facility_inputs_path = YamlPath(keys=('FACILITY_INPUTS',))
    references = {}
    reference_yaml_context = {}
    for index, facility_input in enumerate(configuration.facility_inputs):
        facility_input_path = facility_inputs_path.append(index)
        references[facility_input.name] = facility_input
        reference_yaml_context[facility_input.name] = facility_input_path
    models_yaml_path = YamlPath(keys=('MODELS',))
    for model_index, model in enumerate(configuration.models):
        model_yaml_path = models_yaml_path.append(model_index)
        references[model.name] = model
        reference_yaml_context[model.name] = model_yaml_path
    fuel_types_path = YamlPath(keys=('FUEL_TYPES',))
    for fuel_type_index, fuel_type in enumerate(configuration.fuel_types):
        fuel_type_path = fuel_types_path.append(fuel_type_index)
        references[fuel_type.name] = fuel_type
        reference_yaml_context[fuel_type.name] = fuel_type_path
    streams_path = YamlPath(keys=('INLET_STREAMS',))
    for stream_key, stream in configuration.inlet_streams.items():
        stream_path = streams_path.append(stream_key)
        references[stream.name] = stream
        reference_yaml_context[stream.name] = stream_path
    process_units_path = YamlPath(keys=('DEFINITIONS', 'PROCESS_UNITS'))
    for process_unit_key, process_unit in configuration.definitions.process_units.items():
        process_unit_path = process_units_path.append(process_unit_key)
        references[process_unit_key] = process_unit
        reference_yaml_context[process_unit_key] = process_unit_path
    fluids_path = YamlPath(keys=('DEFINITIONS', 'FLUIDS'))
    for fluid_key, fluid in configuration.definitions.fluids.items():
        fluid_path = fluids_path.append(fluid_key)
        references[fluid_key] = fluid
        reference_yaml_context[fluid_key] = fluid_path
    process_pipelines_path = YamlPath(keys=('PROCESS_PIPELINES',))
    for process_pipeline_key, process_pipeline in configuration.process_pipelines.items():
        process_pipeline_path = process_pipelines_path.append(process_pipeline_key)
        references[process_pipeline.name] = process_pipeline
        reference_yaml_context[process_pipeline.name] = process_pipeline_path
    process_simulations_path = YamlPath(keys=('PROCESS_SIMULATIONS',))
    for process_simulation_index, process_simulation in enumerate(configuration.process_simulations):
        process_simulation_path = process_simulations_path.append(process_simulation_index)
        references[process_simulation.name] = process_simulation
        reference_yaml_context[process_simulation.name] = process_simulation_path
    pump_process_simulations_path = YamlPath(keys=('PUMP_PROCESS_SIMULATIONS',))
    for pump_process_simulation_index, pump_process_simulation in enumerate(configuration.pump_process_simulations):
        pump_process_simulation_path = pump_process_simulations_path.append(pump_process_simulation_index)
        references[pump_process_simulation.name] = pump_process_simulation
        reference_yaml_context[pump_process_simulation.name] = pump_process_simulation_path
    fluid_models_path = YamlPath(keys=('FLUID_MODELS',))
    for fluid_model_key, fluid_model in configuration.fluid_models.items():
        fluid_model_path = fluid_models_path.append(fluid_model_key)
        references[fluid_model_key] = fluid_model
        reference_yaml_context[fluid_model_key] = fluid_model_path
    self._references = references
    self._references_yaml_context = reference_yaml_context


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_yaml_path", props=["C25"])
def YamlReferenceService_get_yaml_path(self, reference):
    return self._references_yaml_context[reference]


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_fluid", props=["C25"])
def YamlReferenceService_get_fluid(self, reference):
    model = self._resolve_yaml_reference(reference, 'fluid model')
    if not isinstance(model, get_args(get_args(YamlFluidModel)[0])):
        raise InvalidReferenceException('fluid model', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_fluid_definition", props=["C25"])
def YamlReferenceService_get_fluid_definition(self, reference):
    fluid = self._resolve_yaml_reference(reference, 'fluid definition')
    if not isinstance(fluid, get_args(get_args(YamlFluidDefinition)[0])):
        raise InvalidReferenceException('fluid definition', reference)
    return fluid


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_turbine", props=["C25"])
def YamlReferenceService_get_turbine(self, reference):
    model = self._resolve_yaml_reference(reference, 'turbine model')
    if not isinstance(model, YamlTurbine):
        raise InvalidReferenceException('turbine model', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_compressor_chart", props=["C25"])
def YamlReferenceService_get_compressor_chart(self, reference):
    model = self._resolve_yaml_reference(reference, 'compressor chart')
    if not isinstance(model, get_args(get_args(YamlCompressorChart)[0])):
        raise InvalidReferenceException('compressor chart', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_fuel_reference", props=["C25"])
def YamlReferenceService_get_fuel_reference(self, reference):
    fuel = self._resolve_yaml_reference(reference, 'fuel')
    if not isinstance(fuel, YamlFuelType):
        raise InvalidReferenceException('fuel', reference, self._references.keys())
    return fuel


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService._resolve_yaml_reference", props=["C25"])
def YamlReferenceService_resolve_yaml_reference(self, reference, reference_type_name):
    try:
        return self._references[reference]
    except (KeyError, TypeError) as e:
        raise InvalidReferenceException(reference_type_name, reference, self._references.keys())


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_generator_set_model", props=["C25"])
def YamlReferenceService_get_generator_set_model(self, reference):
    model = self._resolve_yaml_reference(reference, 'generator set model')
    if not isinstance(model, YamlGeneratorSetModel):
        raise InvalidReferenceException('generator set model', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_compressor_model", props=["C25"])
def YamlReferenceService_get_compressor_model(self, reference):
    model = self._resolve_yaml_reference(reference, 'compressor model')
    if not isinstance(model, YamlCompressorModel):
        raise InvalidReferenceException('compressor model', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_pump_model", props=["C25"])
def YamlReferenceService_get_pump_model(self, reference):
    model = self._resolve_yaml_reference(reference, 'pump model')
    if not isinstance(model, YamlPumpChartSingleSpeed | YamlPumpChartVariableSpeed):
        raise InvalidReferenceException('pump model', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_tabulated_model", props=["C25"])
def YamlReferenceService_get_tabulated_model(self, reference):
    model = self._resolve_yaml_reference(reference, 'tabulated')
    if not isinstance(model, YamlTabularModel):
        raise InvalidReferenceException('tabulated', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_process_pipeline", props=["C25"])
def YamlReferenceService_get_process_pipeline(self, reference):
    model = self._resolve_yaml_reference(reference, 'process system')
    if not isinstance(model, YamlProcessPipeline):
        raise InvalidReferenceException('process system', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_stream", props=["C25"])
def YamlReferenceService_get_stream(self, reference):
    model = self._resolve_yaml_reference(reference, 'stream')
    if not isinstance(model, YamlInletStream):
        raise InvalidReferenceException('stream', reference)
    return model


@target("libecalc.presentation.yaml.yaml_reference_service.YamlReferenceService.get_process_unit", props=["C25"])
def YamlReferenceService_get_process_unit(self, reference):
    model = self._resolve_yaml_reference(reference, 'process unit')
    if not isinstance(model, get_args(get_args(YamlProcessUnitDefinition)[0])):
        raise InvalidReferenceException('process unit', reference)
    return model


@target("libecalc.presentation.yaml.definition_resolver.resolve_definitions", props=["C25"])
def f_resolve_definitions(model, definitions):
    updates = {}
    for field_name, field_info in type(model).model_fields.items():
        value = getattr(model, field_name)
        if value is None:
            continue
        annotation = field_info.annotation
        resolved = _resolve_value(value, annotation, definitions)
        if resolved is not value:
            updates[field_name] = resolved
    if updates:
        return model.model_copy(update=updates)
    return model


@target("libecalc.presentation.yaml.definition_resolver._get_item_type", props=["C25"])
def f_get_item_type(annotation):
    args = get_args(annotation)
    if not args:
        return Any
    origin = get_origin(annotation)
    if origin is dict or (isinstance(origin, type) and issubclass(origin, Mapping)):
        return args[1] if len(args) >= 2 else Any
    if origin is tuple:
        if len(args) == 2 and args[1] is Ellipsis:
            return args[0]
        return Any
    return args[0]


@target("libecalc.presentation.yaml.definition_resolver._resolve_value", props=["C25"])
def f_resolve_value(value, annotation, definitions):
    if _is_definition_reference_union(annotation) and isinstance(value, str):
        return _lookup_definition(value, definitions)
    if isinstance(value, BaseModel):
        return resolve_definitions(value, definitions)
    if isinstance(value, Mapping):
        item_type = _get_item_type(annotation)
        return type(value)({k: _resolve_value(v, item_type, definitions) for k, v in value.items()})
    if isinstance(value, (Sequence, Set)) and (not isinstance(value, (str, bytes))):
        item_type = _get_item_type(annotation)
        return type(value)((_resolve_value(item, item_type, definitions) for item in value))
    return value


@target("libecalc.presentation.yaml.definition_resolver._is_definition_reference_union", props=["C25"])
def f_is_definition_reference_union(annotation):
    origin = get_origin(annotation)
    if origin is Union or origin is types.UnionType:
        args = get_args(annotation)
        return any((a is DefinitionReference for a in args))
    return False


@target("libecalc.presentation.yaml.definition_resolver._lookup_definition", props=["C25"])
def f_lookup_definition(reference, definitions):
    if reference not in definitions:
        raise KeyError()
    return definitions[reference]


@target("libecalc.presentation.yaml.domain.ecalc_components.CompressorProcessSystemComponent.__init__", props=["C25"])
def CompressorProcessSystemComponent_init(self, id, name, type):
    super().__init__(id=id, name=name, type=type)


@target("libecalc.presentation.yaml.domain.ecalc_components.PumpProcessSystemComponent.__init__", props=["C25"])
def PumpProcessSystemComponent_init(self, id, name, type):
    super().__init__(id=id, name=name, type=type)


@target("libecalc.presentation.yaml.domain.ecalc_components.CompressorSampledComponent.__init__", props=["C25"])
def CompressorSampledComponent_init(self, id, name, type):
    super().__init__(id=id, name=name, type=type)


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.__init__", props=["C25"])
def EnergyContainerEnergyModel_init(self, graph, nodes):
    self._graph = graph
    self._nodes = nodes


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_energy_container", props=["C25"])
def EnergyContainerEnergyModel_get_energy_container(self, container_id):
    return self._nodes[container_id]


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_energy_containers", props=["C25"])
def EnergyContainerEnergyModel_get_energy_containers(self):
    return self._graph.graph.nodes


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_energy_components", props=["C25"])
def EnergyContainerEnergyModel_get_energy_components(self):
    return self.get_energy_containers()


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_children", props=["C25"])
def EnergyContainerEnergyModel_get_children(self, container_id):
    return self._graph.get_successors(container_id)


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_consumers", props=["C25"])
def EnergyContainerEnergyModel_get_consumers(self, provider_id):
    return self.get_children(provider_id)


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_all_children", props=["C25"])
def EnergyContainerEnergyModel_get_all_children(self, container_id):
    return self._graph.get_successors(container_id, recursively=True)


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_parent", props=["C25"])
def EnergyContainerEnergyModel_get_parent(self, container_id):
    return self._graph.get_predecessor(container_id)


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModel.get_root", props=["C25"])
def EnergyContainerEnergyModel_get_root(self):
    return self._graph.root


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModelBuilder.__init__", props=["C25"])
def EnergyContainerEnergyModelBuilder_init(self):
    self._nodes = {}
    self._edges = []


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModelBuilder.register_energy_container", props=["C25"])
def EnergyContainerEnergyModelBuilder_register_energy_container(self, container_id, parent_id, energy_container):
    self._nodes[container_id] = energy_container
    if parent_id:
        self._edges.append((parent_id, container_id))


@target("libecalc.presentation.yaml.domain.energy_container_energy_model_builder.EnergyContainerEnergyModelBuilder.build", props=["C25"])
def EnergyContainerEnergyModelBuilder_build(self):
    graph = Graph()
    for node_id in self._nodes:
        graph.add_node(node_id)
    for from_id, to_id in self._edges:
        graph.add_edge(from_id, to_id)
    return EnergyContainerEnergyModel(graph=graph, nodes=self._nodes)


@target("libecalc.presentation.yaml.energy_model_validation.validate_energy_usage_models", props=["C25"])
def f_validate_energy_usage_models(model, consumer_name):
    if isinstance(model, dict):
        energy_model_types = []
        for value in model.values():
            if value.type not in energy_model_types:
                energy_model_types.append(value.type)
        if len(energy_model_types) > 1:
            energy_models_list = ', '.join(energy_model_types)
            raise ValueError()


@target("libecalc.presentation.yaml.ltp_validation.validate_generator_set_power_from_shore", props=["C25"])
def f_validate_generator_set_power_from_shore(cable_loss, max_usage_from_shore, category):
    if cable_loss is not None or max_usage_from_shore is not None:
        CABLE_LOSS = 'CABLE_LOSS'
        MAX_USAGE_FROM_SHORE = 'MAX_USAGE_FROM_SHORE'
        feedback_text = f'{CABLE_LOSS} and {MAX_USAGE_FROM_SHORE} are only valid'
        if cable_loss is None:
            feedback_text = f'{MAX_USAGE_FROM_SHORE} is only valid'
        if max_usage_from_shore is None:
            feedback_text = f'{CABLE_LOSS} is only valid'
        if isinstance(category, ConsumerUserDefinedCategoryType):
            if category is not ConsumerUserDefinedCategoryType.POWER_FROM_SHORE:
                message = f'{feedback_text} for the category {ConsumerUserDefinedCategoryType.POWER_FROM_SHORE.value}, not for {category.value}.'
                raise ValueError()
        elif ConsumerUserDefinedCategoryType.POWER_FROM_SHORE not in category.values():
            message = f'{feedback_text} for the category {ConsumerUserDefinedCategoryType.POWER_FROM_SHORE.value}.'
            raise ValueError()


@target("libecalc.ecalc_model.ecalc_event.EcalcEventType", props=["C25"])
class EcalcEventTypeValues:
    OPERATIONAL_MEASUREMENT = 'OPERATIONAL_MEASUREMENT'
    ENERGY_EFFICIENCY_MEASUREMENT = 'ENERGY_EFFICIENCY_MEASUREMENT'
    CALIBRATION = 'CALIBRATION'
    TIE_IN = 'TIE_IN'
    OTHER = 'OTHER'


@target("libecalc.ecalc_model.ecalc_event.ProcessEventType", props=["C25"])
class ProcessEventTypeValues:
    INCREASED_GAS_RATE = 'INCREASED_GAS_RATE'
    INCREASED_WATER_INJECTION = 'INCREASED_WATER_INJECTION'
    OTHER = 'OTHER'


@target("libecalc.ecalc_model.ecalc_event.EcalcEventService.__init__", props=["C25"])
def EcalcEventService_init(self, ecalc_events):
    self._ecalc_events = ecalc_events or []


@target("libecalc.ecalc_model.ecalc_event.EcalcEventService.get_event_by_name", props=["C25"])
def EcalcEventService_get_event_by_name(self, name):
    for ecalc_event in self._ecalc_events:
        if ecalc_event.name == name:
            return ecalc_event
    return None


@target("libecalc.ecalc_model.ecalc_event.EcalcEventService.get_event_by_process_name", props=["C25"])
def EcalcEventService_get_event_by_process_name(self, name):
    for ecalc_event in self._ecalc_events:
        for process_event in ecalc_event.process_events:
            if process_event.name == name:
                return ecalc_event
    return None


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.__init__", props=["C25"])
def ProcessProblemSection_init(self, process_pipeline_section_id, constraint, pressure_control, anti_surge, process_problem_section_id=None):
    self._process_pipeline_section_id = process_pipeline_section_id
    self._constraint = constraint
    self._pressure_control = pressure_control
    self._anti_surge = anti_surge
    self._id = process_problem_section_id or ProcessProblemSection._create_id()


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.get_id", props=["C25"])
def ProcessProblemSection_get_id(self):
    return self._id


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.get_process_pipeline_section_id", props=["C25"])
def ProcessProblemSection_get_process_pipeline_section_id(self):
    return self._process_pipeline_section_id


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.get_constraint", props=["C25"])
def ProcessProblemSection_get_constraint(self):
    return self._constraint


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.get_pressure_control", props=["C25"])
def ProcessProblemSection_get_pressure_control(self):
    return self._pressure_control


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection.get_anti_surge", props=["C25"])
def ProcessProblemSection_get_anti_surge(self):
    return self._anti_surge


@target("libecalc.ecalc_model.process_simulation.ProcessProblemSection._create_id", props=["C25"])
def ProcessProblemSection_create_id(cls):
    return ProcessProblemSectionId(ecalc_id_generator())


@target("libecalc.ecalc_model.process_simulation.ProcessProblem.__init__", props=["C25"])
def ProcessProblem_init(self, process_problem_sections, configuration_handlers, process_pipeline_id, process_problem_id=None):
    self._process_problem_sections = process_problem_sections
    self._configuration_handlers = configuration_handlers
    self._process_pipeline_id = process_pipeline_id
    self._id = process_problem_id or ProcessProblem._create_id()


@target("libecalc.ecalc_model.process_simulation.ProcessProblem.get_id", props=["C25"])
def ProcessProblem_get_id(self):
    return self._id


@target("libecalc.ecalc_model.process_simulation.ProcessProblem.get_process_pipeline_id", props=["C25"])
def ProcessProblem_get_process_pipeline_id(self):
    return self._process_pipeline_id


@target("libecalc.ecalc_model.process_simulation.ProcessProblem._create_id", props=["C25"])
def ProcessProblem_create_id(cls):
    return ProcessProblemId(ecalc_id_generator())


@target("libecalc.ecalc_model.process_simulation.ProcessProblem.get_process_problem_sections", props=["C25"])
def ProcessProblem_get_process_problem_sections(self):
    return self._process_problem_sections


@target("libecalc.ecalc_model.process_simulation.ProcessProblem.get_configuration_handlers", props=["C25"])
def ProcessProblem_get_configuration_handlers(self):
    return self._configuration_handlers


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation.__init__", props=["C25"])
def ProcessSimulation_init(self, name, stream_distribution, process_problems, process_periods, process_simulation_id=None, process_configurations=None):
    self._name = name
    self.stream_distribution = stream_distribution
    self.process_problems = process_problems
    self.process_periods = process_periods
    self.process_configurations = process_configurations
    self._id = process_simulation_id or ProcessSimulation._create_id()


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation.get_id", props=["C25"])
def ProcessSimulation_get_id(self):
    return self._id


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation.get_process_periods", props=["C25"])
def ProcessSimulation_get_process_periods(self):
    return self.process_periods


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation.get_name", props=["C25"])
def ProcessSimulation_get_name(self):
    return self._name


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation._create_id", props=["C25"])
def ProcessSimulation_create_id(cls):
    return ProcessSimulationId(ecalc_id_generator())


@target("libecalc.ecalc_model.process_simulation.ProcessSimulation.get_inlet_streams", props=["C25"])
def ProcessSimulation_get_inlet_streams(self):
    match self.stream_distribution:
        case CommonStreamDistributionConfig():
            return [self.stream_distribution.inlet_stream]
        case IndividualStreamDistributionConfig():
            return self.stream_distribution.inlet_streams
        case _:
            assert_never(self.stream_distribution)


@target("libecalc.ecalc_model.time_series_fluid_model.TimeSeriesFluidComposition.get_value", props=["C25"])
def TimeSeriesFluidComposition_get_value(self, period):
    try:
        index = self.methane.get_periods().index(period)
    except ValueError as error:
        raise ProgrammingError(f'Period {period} is not available for the fluid composition.')
    return FluidComposition(water=self.water.get_masked_values()[index], nitrogen=self.nitrogen.get_masked_values()[index], CO2=self.CO2.get_masked_values()[index], methane=self.methane.get_masked_values()[index], ethane=self.ethane.get_masked_values()[index], propane=self.propane.get_masked_values()[index], i_butane=self.i_butane.get_masked_values()[index], n_butane=self.n_butane.get_masked_values()[index], i_pentane=self.i_pentane.get_masked_values()[index], n_pentane=self.n_pentane.get_masked_values()[index], n_hexane=self.n_hexane.get_masked_values()[index])


@target("libecalc.ecalc_model.time_series_fluid_model.TimeSeriesFluidModel.get_value", props=["C25"])
def TimeSeriesFluidModel_get_value(self, period):
    return FluidModel(eos_model=self.eos_model, composition=self.composition.get_value(period))
