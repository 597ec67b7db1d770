# Reference equations (parsed by the checker, never executed).
import numpy as np
from libecalc.common.component_type import ComponentType
from libecalc.common.consumption_type import ConsumptionType
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException, GeneratorSetEqualLengthValidationException, GeneratorSetHeaderValidationException, ProcessEqualLengthValidationException, ProcessTurbineEfficiencyValidationException
from libecalc.common.errors.exceptions import EcalcError, InvalidColumnException, ProgrammingError
from libecalc.common.interpolation import setup_interpolator_1d, setup_interpolator_n_dimensional
from libecalc.common.list.list_utils import array_to_list
from libecalc.common.string.string_utils import generate_id
from libecalc.common.time_utils import Period
from libecalc.common.units import Unit
from libecalc.common.utils.nan_handling import clean_nan_values
from libecalc.common.utils.rates import RateType, TimeSeriesBoolean, TimeSeriesRate, TimeSeriesStreamDayRate
from libecalc.core.result import GeneratorSetResult
from libecalc.domain.infrastructure.energy_components.fuel_model.fuel_model import FuelModel
from libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model import GeneratorSetModel
from libecalc.domain.infrastructure.energy_components.generator_set.generator_set_validator import GeneratorSetValidator
from libecalc.domain.infrastructure.energy_components.legacy_consumer.component import Consumer as ConsumerEnergyComponent
from libecalc.domain.installation import FuelConsumption
from libecalc.domain.process.core.results import TurbineResult
from scipy.interpolate import LinearNDInterpolator, interp1d
SECONDS_PER_DAY = 86400


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.__init__", props=["C10"])
def GeneratorSetEnergyComponent_init(self, id, name, generator_set_model, regularity, expression_evaluator, consumers, fuel, cable_loss=None, max_usage_from_shore=None, component_type=ComponentType.GENERATOR_SET):
    generator_set_period = generator_set_model.get_period()
    if generator_set_period not in fuel.get_period():
        raise EcalcValidationException(f'Fuel definition does not cover the full operational period. Make sure fuel is defined for the full period {generator_set_period.start.date()};{generator_set_period.end.date()}, current period is {fuel.get_period().start.date()};{fuel.get_period().end.date()}.')
    self._uuid = id
    self._name = name
    self.regularity = regularity
    self.expression_evaluator = expression_evaluator
    self.temporal_generator_set_model = generator_set_model
    self.fuel = fuel
    self.consumers = consumers if consumers is not None else []
    self.cable_loss = cable_loss
    self.max_usage_from_shore = max_usage_from_shore
    self.component_type = component_type
    self._generator_set_result = None


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_id", props=["C10"])
def GeneratorSetEnergyComponent_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.name", props=["C10"])
def GeneratorSetEnergyComponent_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.is_fuel_consumer", props=["C10"])
def GeneratorSetEnergyComponent_is_fuel_consumer(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.is_electricity_consumer", props=["C10"])
def GeneratorSetEnergyComponent_is_electricity_consumer(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.is_provider", props=["C10"])
def GeneratorSetEnergyComponent_is_provider(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_component_process_type", props=["C10"])
def GeneratorSetEnergyComponent_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_name", props=["C10"])
def GeneratorSetEnergyComponent_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.evaluate_process_model", props=["C10"])
def GeneratorSetEnergyComponent_evaluate_process_model(self, power_requirement):
    if power_requirement is None:
        raise EcalcError(title='Invalid generator set', message='No consumption for generator set')
    if not len(power_requirement) == len(self.expression_evaluator.get_periods()):
        raise ProgrammingError(message=f"The length of the power requirement does not match the time vector for the generator set '{self.name}'. Ensure that the power requirement aligns with the expected time periods.")
    periods = self.expression_evaluator.get_periods()
    actual_period = self.expression_evaluator.get_period()
    fuel_rate = self._evaluate_fuel_rate(power_requirement=power_requirement, periods=periods, actual_period=actual_period)
    power_capacity_margin = self._evaluate_power_capacity_margin(power_requirement=power_requirement, periods=periods, actual_period=actual_period)
    valid_periods = np.logical_and(~np.isnan(fuel_rate), power_capacity_margin >= 0)
    fuel_rate = clean_nan_values(fuel_rate)
    return GeneratorSetResult(id=self.get_name(), periods=self.expression_evaluator.get_periods(), is_valid=TimeSeriesBoolean(periods=self.expression_evaluator.get_periods(), values=array_to_list(valid_periods), unit=Unit.NONE), power_capacity_margin=TimeSeriesStreamDayRate(periods=self.expression_evaluator.get_periods(), values=array_to_list(power_capacity_margin), unit=Unit.MEGA_WATT), power=TimeSeriesStreamDayRate(periods=self.expression_evaluator.get_periods(), values=power_requirement.values, unit=Unit.MEGA_WATT), energy_usage=TimeSeriesStreamDayRate(periods=self.expression_evaluator.get_periods(), values=array_to_list(fuel_rate), unit=Unit.STANDARD_CUBIC_METER_PER_DAY))


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.evaluate_energy_usage", props=["C10"])
def GeneratorSetEnergyComponent_evaluate_energy_usage(self, context):
    res = self.evaluate_process_model(power_requirement=context.get_power_requirement())
    self._generator_set_result = res
    return res


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent._evaluate_fuel_rate", props=["C10"])
def GeneratorSetEnergyComponent_evaluate_fuel_rate(self, power_requirement, periods, actual_period):
    values = power_requirement.values
    fuel_rate = np.full_like(power_requirement.values, fill_value=np.nan).astype(float)
    for period, model in self.temporal_generator_set_model.items():
        if Period.intersects(period, actual_period):
            start_index, end_index = period.get_period_indices(periods)
            for i in range(start_index, end_index):
                fuel_rate[i] = model.evaluate_fuel_usage(values[i])
    return fuel_rate


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent._evaluate_power_capacity_margin", props=["C10"])
def GeneratorSetEnergyComponent_evaluate_power_capacity_margin(self, power_requirement, periods, actual_period):
    values = power_requirement.values
    power_margin = np.zeros_like(power_requirement.values).astype(float)
    for period, model in self.temporal_generator_set_model.items():
        if Period.intersects(period, actual_period):
            start_index, end_index = period.get_period_indices(periods)
            for i in range(start_index, end_index):
                power_margin[i] = model.evaluate_power_capacity_margin(values[i])
    return power_margin


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_power_production", props=["C10"])
def GeneratorSetEnergyComponent_get_power_production(self):
    power = self._generator_set_result.power
    if self.cable_loss is not None:
        cable_loss = np.array(self.cable_loss.get_values(), dtype=np.float64)
        power_production_values = power.values * (1 + cable_loss)
        return TimeSeriesRate(periods=power.periods, values=power_production_values, unit=power.unit, regularity=self.regularity.time_series.values, rate_type=RateType.STREAM_DAY)
    else:
        return TimeSeriesRate.from_timeseries_stream_day_rate(power, regularity=self.regularity.time_series)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_maximum_power_production", props=["C10"])
def GeneratorSetEnergyComponent_get_maximum_power_production(self):
    if self.max_usage_from_shore is None:
        return None
    max_power_production = self.max_usage_from_shore.get_values()
    return TimeSeriesRate(periods=self.expression_evaluator.get_periods(), values=max_power_production, unit=Unit.MEGA_WATT, regularity=self.regularity.time_series.values, rate_type=RateType.STREAM_DAY)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_power_capacity_margin", props=["C10"])
def GeneratorSetEnergyComponent_get_power_capacity_margin(self):
    return TimeSeriesRate.from_timeseries_stream_day_rate(self._generator_set_result.power_capacity_margin, regularity=self.regularity.time_series)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_power_requirement", props=["C10"])
def GeneratorSetEnergyComponent_get_power_requirement(self):
    power = self._generator_set_result.power
    return TimeSeriesRate.from_timeseries_stream_day_rate(power, self.regularity.time_series)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_fuel_consumption", props=["C10"])
def GeneratorSetEnergyComponent_get_fuel_consumption(self):
    fuel_rate = self._generator_set_result.energy_usage
    return FuelConsumption(rate=TimeSeriesRate.from_timeseries_stream_day_rate(fuel_rate, regularity=self.regularity.time_series), fuel=self.fuel)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_fuel", props=["C10"])
def GeneratorSetEnergyComponent_get_fuel(self):
    return self.fuel


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_component.GeneratorSetEnergyComponent.get_emissions", props=["C10"])
def GeneratorSetEnergyComponent_get_emissions(self):
    fuel_model = FuelModel(self.fuel, expression_evaluator=self.expression_evaluator)
    fuel_rate = self.get_fuel_consumption().rate
    emissions = fuel_model.evaluate_emissions(fuel_rate.values)
    return {emission_name: TimeSeriesRate.from_timeseries_stream_day_rate(emission, self.regularity.time_series) for emission_name, emission in emissions.items()}


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.__init__", props=["C10"])
def GeneratorSetModel_init(self, name, resource):
    self._name = name
    self._id = generate_id(self._name)
    self.resource = resource
    self.validator = GeneratorSetValidator(resource=self.resource)
    self.validator.validate()
    fuel_values = self.electricity2fuel_fuel_axis
    power_values = self.electricity2fuel_power_axis
    self._func = setup_interpolator_1d(variable=np.array(power_values), function_values=np.array(fuel_values), fill_value=(min(fuel_values), max(fuel_values)), bounds_error=False)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.electricity2fuel_fuel_axis", props=["C10"])
def GeneratorSetModel_electricity2fuel_fuel_axis(self):
    return [float(x) for x in self.resource.get_column('FUEL')]


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.electricity2fuel_power_axis", props=["C10"])
def GeneratorSetModel_electricity2fuel_power_axis(self):
    return [float(x) for x in self.resource.get_column('POWER')]


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.max_capacity", props=["C10"])
def GeneratorSetModel_max_capacity(self):
    return self._func.x.max()


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.max_fuel", props=["C10"])
def GeneratorSetModel_max_fuel(self):
    return self._func.y.max()


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.get_id", props=["C10"])
def GeneratorSetModel_get_id(self):
    return self._id


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.get_type", props=["C10"])
def GeneratorSetModel_get_type(self):
    return 'GENERATOR_SET_SAMPLED'


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.get_name", props=["C10"])
def GeneratorSetModel_get_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.evaluate_fuel_usage", props=["C10"])
def GeneratorSetModel_evaluate_fuel_usage(self, power):
    return float(self._func(power)) if power > 0 else 0.0


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.evaluate_power_capacity_margin", props=["C10"])
def GeneratorSetModel_evaluate_power_capacity_margin(self, power):
    return float(self.max_capacity - power)


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.__eq__", props=["C10"])
def GeneratorSetModel_eq(self, other):
    if not isinstance(other, GeneratorSetModel):
        return False
    return self.get_id() == other.get_id()


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_model.GeneratorSetModel.__hash__", props=["C10"])
def GeneratorSetModel_hash(self):
    return hash(self.get_id())


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_validator.GeneratorSetValidator.__init__", props=["C10"])
def GeneratorSetValidator_init(self, resource):
    self.headers = resource.get_headers()
    self.data = [resource.get_column(header) for header in self.headers]


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_validator.GeneratorSetValidator.validate", props=["C10"])
def GeneratorSetValidator_validate(self):
    self.validate_headers()
    self.validate_data()


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_validator.GeneratorSetValidator.validate_headers", props=["C10"])
def GeneratorSetValidator_validate_headers(self):
    is_valid_headers = len(self.headers) == 2 and 'FUEL' in self.headers and ('POWER' in self.headers)
    if not is_valid_headers:
        msg = "Sampled generator set data should have a 'FUEL' and 'POWER' header"
        raise GeneratorSetHeaderValidationException(message=str(msg))


@target("libecalc.domain.infrastructure.energy_components.generator_set.generator_set_validator.GeneratorSetValidator.validate_data", props=["C10"])
def GeneratorSetValidator_validate_data(self):
    if len(self.data) != len(self.headers):
        raise GeneratorSetEqualLengthValidationException(message=f'Data should have {len(self.headers)} columns, but got {len(self.data)}.')
    lengths = [len(lst) for lst in self.data]
    if len(set(lengths)) > 1:
        problematic_vectors = [(i, len(lst)) for i, lst in enumerate(self.data)]
        msg = f'Sampled generator set data should have equal number of datapoints for FUEL and POWER. Found lengths: {problematic_vectors}'
        raise GeneratorSetEqualLengthValidationException(message=str(msg))
    for column_index, header in enumerate(self.headers):
        for row_index, value in enumerate(self.data[column_index]):
            try:
                float(value)
            except ValueError as e:
                raise InvalidColumnException(header=header, message=f"Got non-numeric value '{value}'.", row_index=row_index)


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.__init__", props=["C10", "C11"])
def ElectricityConsumer_init(self, id, name, regularity, component_type, energy_usage_model, expression_evaluator, consumes=ConsumptionType.ELECTRICITY):
    self._uuid = id
    self._name = name
    self.regularity = regularity
    self.energy_usage_model = energy_usage_model
    self.expression_evaluator = expression_evaluator
    self.consumes = consumes
    self.component_type = component_type
    self._consumer_result = None


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.get_id", props=["C10", "C11"])
def ElectricityConsumer_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.name", props=["C10", "C11"])
def ElectricityConsumer_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.is_fuel_consumer", props=["C10", "C11"])
def ElectricityConsumer_is_fuel_consumer(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.is_electricity_consumer", props=["C10", "C11"])
def ElectricityConsumer_is_electricity_consumer(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.is_provider", props=["C10", "C11"])
def ElectricityConsumer_is_provider(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.get_component_process_type", props=["C10", "C11"])
def ElectricityConsumer_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.get_name", props=["C10", "C11"])
def ElectricityConsumer_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.evaluate_energy_usage", props=["C10", "C11"])
def ElectricityConsumer_evaluate_energy_usage(self, context):
    consumer = ConsumerEnergyComponent(id=self.name, name=self.name, component_type=self.component_type, regularity=self.regularity, consumes=self.consumes, energy_usage_model=self.energy_usage_model)
    res = consumer.evaluate(expression_evaluator=self.expression_evaluator)
    self._consumer_result = res
    return res


@target("libecalc.domain.infrastructure.energy_components.electricity_consumer.electricity_consumer.ElectricityConsumer.get_power_consumption", props=["C10", "C11"])
def ElectricityConsumer_get_power_consumption(self):
    power = self._consumer_result.power
    if power is None:
        return None
    return TimeSeriesRate.from_timeseries_stream_day_rate(power, regularity=self.regularity.time_series)


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.__init__", props=["C09", "C11"])
def FuelConsumerComponent_init(self, id, name, regularity, component_type, fuel, energy_usage_model, expression_evaluator):
    consumer_period = energy_usage_model.get_period()
    if consumer_period not in fuel.get_period():
        raise EcalcValidationException(f'Fuel definition does not cover the full operational period. Make sure fuel is defined for the full period {consumer_period.start.date()};{consumer_period.end.date()}, current period is {fuel.get_period().start.date()};{fuel.get_period().end.date()}.')
    self._uuid = id
    self._name = name
    self.regularity = regularity
    self.energy_usage_model = energy_usage_model
    self.expression_evaluator = expression_evaluator
    self.fuel = fuel
    self.component_type = component_type
    self._consumer_result = None


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_id", props=["C09", "C11"])
def FuelConsumerComponent_get_id(self):
    return self._uuid


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.name", props=["C09", "C11"])
def FuelConsumerComponent_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.is_fuel_consumer", props=["C09", "C11"])
def FuelConsumerComponent_is_fuel_consumer(self):
    return True


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.is_electricity_consumer", props=["C09", "C11"])
def FuelConsumerComponent_is_electricity_consumer(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.is_provider", props=["C09", "C11"])
def FuelConsumerComponent_is_provider(self):
    return False


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_component_process_type", props=["C09", "C11"])
def FuelConsumerComponent_get_component_process_type(self):
    return self.component_type


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_name", props=["C09", "C11"])
def FuelConsumerComponent_get_name(self):
    return self.name


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.evaluate_energy_usage", props=["C09", "C11"])
def FuelConsumerComponent_evaluate_energy_usage(self, context):
    consumer = ConsumerEnergyComponent(id=self.name, name=self.name, component_type=self.component_type, regularity=self.regularity, consumes=ConsumptionType.FUEL, energy_usage_model=self.energy_usage_model)
    res = consumer.evaluate(expression_evaluator=self.expression_evaluator)
    self._consumer_result = res
    return res


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_fuel_consumption", props=["C09", "C11"])
def FuelConsumerComponent_get_fuel_consumption(self):
    fuel_rate = self._consumer_result.energy_usage
    return FuelConsumption(rate=TimeSeriesRate.from_timeseries_stream_day_rate(fuel_rate, regularity=self.regularity.time_series), fuel=self.fuel)


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_power_consumption", props=["C09", "C11"])
def FuelConsumerComponent_get_power_consumption(self):
    power = self._consumer_result.power
    if power is None:
        return None
    if 0 < len(power) == len(self.expression_evaluator.get_periods()) and len(self._consumer_result.periods) == len(power.periods):
        return TimeSeriesRate.from_timeseries_stream_day_rate(power, regularity=self.regularity.time_series)
    else:
        return None


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_fuel", props=["C09", "C11"])
def FuelConsumerComponent_get_fuel(self):
    return self.fuel


@target("libecalc.domain.infrastructure.energy_components.fuel_consumer.fuel_consumer.FuelConsumerComponent.get_emissions", props=["C09", "C11"])
def FuelConsumerComponent_get_emissions(self):
    fuel_model = FuelModel(self.fuel, expression_evaluator=self.expression_evaluator)
    fuel_rate = self.get_fuel_consumption().rate
    emissions = fuel_model.evaluate_emissions(fuel_rate.values)
    return {emission_name: TimeSeriesRate.from_timeseries_stream_day_rate(emission, self.regularity.time_series) for emission_name, emission in emissions.items()}


@target("libecalc.domain.infrastructure.energy_components.turbine.turbine", props=["C10", "C24"])
class K58_constants:
    SECONDS_PER_DAY = 86400


@target("libecalc.domain.infrastructure.energy_components.turbine.turbine.Turbine.__init__", props=["C10", "C24"])
def Turbine_init(self, loads, lower_heating_value, efficiency_fractions, energy_usage_adjustment_factor, energy_usage_adjustment_constant):
    self.lower_heating_value = lower_heating_value
    self.loads = loads
    self._maximum_load = max(self.loads)
    self.efficiency_fractions = efficiency_fractions
    self.validate_loads_and_efficiency_factors()
    self._efficiency_function = interp1d(x=self.loads, y=self.efficiency_fractions, bounds_error=False, fill_value=(0, self.efficiency_fractions[-1]))
    self._energy_usage_adjustment_factor = energy_usage_adjustment_factor
    self._energy_usage_adjustment_constant = energy_usage_adjustment_constant


@target("libecalc.domain.infrastructure.energy_components.turbine.turbine.Turbine.max_power", props=["C10", "C24"])
def Turbine_max_power(self):
    return self._maximum_load * self._energy_usage_adjustment_factor - self._energy_usage_adjustment_constant


@target("libecalc.domain.infrastructure.energy_components.turbine.turbine.Turbine.evaluate", props=["C10", "C24"])
def Turbine_evaluate(self, load, fuel_lower_heating_value=0):
    load_adjusted = np.where(load > 0, (load + self._energy_usage_adjustment_constant) / self._energy_usage_adjustment_factor, load)
    lower_heating_value_to_use = fuel_lower_heating_value if fuel_lower_heating_value > 0 else self.lower_heating_value
    efficiency = self._efficiency_function(x=load_adjusted)
    fuel_usage = np.divide(np.divide(load_adjusted * SECONDS_PER_DAY, lower_heating_value_to_use, out=np.zeros_like(load_adjusted), where=lower_heating_value_to_use != 0), efficiency, out=np.zeros_like(load_adjusted), where=np.logical_and(lower_heating_value_to_use != 0, efficiency != 0))
    load_list = array_to_list(load_adjusted) or []
    efficiency_list = array_to_list(efficiency) or []
    fuel_usage_list = array_to_list(fuel_usage) or []
    exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
    return TurbineResult(load=load_list, efficiency=efficiency_list, energy_usage=fuel_usage_list, energy_usage_unit=Unit.STANDARD_CUBIC_METER_PER_DAY, load_unit=Unit.MEGA_WATT, exceeds_maximum_load=exceeds_max_list)


@target("libecalc.domain.infrastructure.energy_components.turbine.turbine.Turbine.validate_loads_and_efficiency_factors", props=["C10", "C24"])
def Turbine_validate_loads_and_efficiency_factors(self):
    if len(self.loads) != len(self.efficiency_fractions):
        msg = f'Need equal number of load and efficiency values for turbine model. Got {len(self.loads)} load values and {len(self.efficiency_fractions)} efficiency values.'
        raise ProcessEqualLengthValidationException(message=str(msg))
    invalid_efficiencies = [x for x in self.efficiency_fractions if not 0 <= x <= 1]
    if invalid_efficiencies:
        msg = f'Turbine efficiency fraction should be a number between 0 and 1. Invalid values: {invalid_efficiencies}'
        raise ProcessTurbineEfficiencyValidationException(message=str(msg))


@target("libecalc.domain.installation.PowerConsumer.get_producer_id", props=["C10", "C12"])
def PowerConsumer_get_producer_id(self):
    ...


@target("libecalc.domain.installation.PowerConsumer.get_power_consumption", props=["C10", "C12"])
def PowerConsumer_get_power_consumption(self):
    ...


@target("libecalc.common.interpolation.setup_interpolator_1d", props=["C10", "C11"])
def f_setup_interpolator_1d(variable, function_values, fill_value=np.nan, bounds_error=False):
    return interp1d(np.reshape(variable, -1), np.reshape(function_values, -1), fill_value=fill_value, bounds_error=bounds_error)


@target("libecalc.common.interpolation.setup_interpolator_n_dimensional", props=["C10", "C11"])
def f_setup_interpolator_n_dimensional(variables, function_values, fill_value=np.nan, rescale=True):
    points = np.asarray([np.ravel(v) for v in variables]).T
    return LinearNDInterpolator(points, np.ravel(function_values), fill_value=fill_value, rescale=rescale)


@target("libecalc.common.interpolation.setup_interpolator", props=["C10", "C11"])
def f_setup_interpolator(variables, function_values, fill_value=np.nan, bounds_error=False, rescale=True):
    if len(variables) == 1:
        return setup_interpolator_1d(variable=variables[0], function_values=function_values, fill_value=fill_value, bounds_error=bounds_error)
    else:
        return setup_interpolator_n_dimensional(variables=variables, function_values=function_values, fill_value=fill_value, rescale=rescale)


@target("libecalc.common.list.adjustment.transform_linear", props=["C10", "C11"])
def f_transform_linear(values, constant=0.0, factor=1.0):
    constant = constant if constant is not None else 0.0
    factor = factor if factor is not None else 1.0
    return values * factor + constant
