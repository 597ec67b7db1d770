# Reference equations (parsed by the checker, never executed).
import numpy as np
import operator
import pandas as pd
from collections import defaultdict
from functools import reduce
from libecalc.common.component_type import ComponentType
from libecalc.common.energy_usage_type import EnergyUsageType
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException, ProcessEqualLengthValidationException, ProcessHeaderValidationException
from libecalc.common.errors.exceptions import IllegalStateException, InvalidColumnException
from libecalc.common.interpolation import setup_interpolator_1d, setup_interpolator_n_dimensional
from libecalc.common.list.list_utils import array_to_list
from libecalc.common.priority_optimizer import PriorityOptimizerResult
from libecalc.common.units import Unit
from libecalc.core.result import ConsumerSystemResult
from libecalc.core.result.results import GenericComponentResult
from libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function import ConsumerFunctionResult
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results import ConsumerSystemOperationalSettingResult, SystemComponentResultWithName
from libecalc.domain.infrastructure.energy_components.legacy_consumer.system.utils import get_operational_settings_number_used_from_model_results
from libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.common import Variable
from libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function import _check_variables_match_required
from libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function import TabularEnergyFunction
from libecalc.domain.process.compressor.core.base import CompressorWithTurbineModel
from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
from libecalc.domain.process.compressor.core.train.base import CompressorTrainModel
from libecalc.domain.process.core.results import EnergyFunctionGenericResult
from libecalc.domain.process.pump.pump import PumpModel
from typing import assert_never, cast


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.component.Consumer.__init__", props=["C11"])
def Consumer_init(self, id, name, component_type, consumes, regularity, energy_usage_model):
    self._id = id
    self.name = name
    self.component_type = component_type
    self.consumes = consumes
    self.regularity = regularity
    self._consumer_time_function = energy_usage_model


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.component.Consumer.get_consumer_result", props=["C11"])
def Consumer_get_consumer_result(self, periods, results):
    if self.component_type in [ComponentType.PUMP_SYSTEM, ComponentType.COMPRESSOR_SYSTEM]:
        system_results = cast(list[ConsumerSystemConsumerFunctionResult], results)
        consumer_result = ConsumerSystemResult(id=self._id, periods=periods, results=system_results)
    else:
        generic_results = cast(list[ConsumerFunctionResult], results)
        consumer_result = GenericComponentResult(id=self._id, periods=periods, results=generic_results)
    return consumer_result


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.component.Consumer.evaluate", props=["C11"])
def Consumer_evaluate(self, expression_evaluator):
    consumer_function_results = []
    for consumer_model in self._consumer_time_function.get_models():
        consumer_function_result = consumer_model.evaluate()
        consumer_function_results.append(consumer_function_result)
    consumer_result = self.get_consumer_result(periods=expression_evaluator.get_periods(), results=consumer_function_results)
    return consumer_result


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function.DirectConsumerFunction.__init__", props=["C11"])
def DirectConsumerFunction_init(self, energy_usage_type, fuel_rate=None, load=None, power_loss_factor=None):
    self._energy_usage = fuel_rate if energy_usage_type == EnergyUsageType.FUEL.value else load
    self._energy_usage_type = energy_usage_type
    self._power_loss_factor = power_loss_factor


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function.DirectConsumerFunction.is_electrical_consumer", props=["C11"])
def DirectConsumerFunction_is_electrical_consumer(self):
    return self._energy_usage_type == EnergyUsageType.POWER


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function.DirectConsumerFunction.is_fuel_consumer", props=["C11"])
def DirectConsumerFunction_is_fuel_consumer(self):
    return self._energy_usage_type == EnergyUsageType.FUEL


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function.DirectConsumerFunction.energy_usage_unit", props=["C11"])
def DirectConsumerFunction_energy_usage_unit(self):
    if self.is_electrical_consumer:
        return Unit.MEGA_WATT
    elif self.is_fuel_consumer:
        return Unit.STANDARD_CUBIC_METER_PER_DAY
    else:
        return Unit.NONE


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.direct_consumer_function.DirectConsumerFunction.evaluate", props=["C11"])
def DirectConsumerFunction_evaluate(self):
    energy_usage = self._energy_usage.get_stream_day_values()
    energy_function_result = EnergyFunctionGenericResult(energy_usage=energy_usage, energy_usage_unit=self.energy_usage_unit, power=energy_usage if self.is_electrical_consumer else None, power_unit=self.energy_usage_unit if self.is_electrical_consumer else None, allow_negative_energy_usage=self.is_electrical_consumer)
    consumer_function_result = ConsumerFunctionResult(periods=self._energy_usage.get_periods(), energy_function_result=energy_function_result, power_loss_factor=self._power_loss_factor)
    return consumer_function_result


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.__init__", props=["C11"])
def ConsumerFunctionResult_init(self, periods, power_loss_factor, energy_function_result):
    self.periods = periods
    self._power_loss_factor = power_loss_factor
    self.energy_function_result = energy_function_result


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult._energy_result", props=["C11"])
def ConsumerFunctionResult_energy_result(self):
    return self.energy_function_result.get_energy_result()


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.is_valid", props=["C11"])
def ConsumerFunctionResult_is_valid(self):
    return np.asarray(self._energy_result.is_valid)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult._power_before_power_loss_factor", props=["C11"])
def ConsumerFunctionResult_power_before_power_loss_factor(self):
    return np.asarray(self._energy_result.power.values, dtype=np.float64) if self._energy_result.power is not None else None


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.power", props=["C11"])
def ConsumerFunctionResult_power(self):
    if self._power_loss_factor is None:
        return self._power_before_power_loss_factor
    return self._power_loss_factor.apply(np.asarray(self._power_before_power_loss_factor, dtype=np.float64)) if self._power_before_power_loss_factor is not None else None


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.energy_usage_before_power_loss_factor", props=["C11"])
def ConsumerFunctionResult_energy_usage_before_power_loss_factor(self):
    return np.asarray(self._energy_result.energy_usage.values, dtype=np.float64)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.energy_usage", props=["C11"])
def ConsumerFunctionResult_energy_usage(self):
    if self._power_loss_factor is None:
        return self.energy_usage_before_power_loss_factor
    return self._power_loss_factor.apply(np.asarray(self.energy_usage_before_power_loss_factor, dtype=np.float64))


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.power_loss_factor", props=["C11"])
def ConsumerFunctionResult_power_loss_factor(self):
    return np.asarray(self._power_loss_factor.get_values(), dtype=np.float64) if self._power_loss_factor is not None else None


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.results.ConsumerFunctionResult.energy_usage_unit", props=["C11"])
def ConsumerFunctionResult_energy_usage_unit(self):
    return self._energy_result.energy_usage.unit


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.consumer_function.types.ConsumerFunctionType", props=["C11"])
class ConsumerFunctionTypeValues:
    SINGLE = 'SINGLE'
    SYSTEM = 'SYSTEM'


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.__init__", props=["C11"])
def ConsumerSystemConsumerFunction_init(self, consumer_components, operational_settings_expressions, power_loss_factor):
    self.consumers = consumer_components
    self._operational_settings_expressions = operational_settings_expressions
    self.power_loss_factor = power_loss_factor
    self.validate()


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.validate", props=["C11"])
def ConsumerSystemConsumerFunction_validate(self):
    for operational_settings_expression in self._operational_settings_expressions:
        if operational_settings_expression.number_of_consumers != len(self.consumers):
            message = f'Number of consumers in operational setting ({operational_settings_expression.number_of_consumers}) does not match the number of consumers in the consumer system ({len(self.consumers)})'
            raise EcalcValidationException(message=message)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.operational_settings", props=["C11"])
def ConsumerSystemConsumerFunction_operational_settings(self):
    return self._operational_settings_expressions


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.number_of_consumers", props=["C11"])
def ConsumerSystemConsumerFunction_number_of_consumers(self):
    return len(self.consumers)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.evaluate", props=["C11"])
def ConsumerSystemConsumerFunction_evaluate(self):
    operational_settings = self.operational_settings
    for operational_setting in operational_settings:
        if operational_setting.cross_overs:
            self.calculate_operational_settings_after_cross_over(operational_setting=operational_setting)
    consumer_system_operational_settings_results = []
    for i, operational_setting in enumerate(self.operational_settings):
        consumer_results = {}
        for consumer_index, consumer in enumerate(self.consumers):
            consumer_result = consumer.evaluate(rate=operational_setting.get_rate_after_crossover(consumer_index), suction_pressure=operational_setting.get_suction_pressure(consumer_index), discharge_pressure=operational_setting.get_discharge_pressure(consumer_index), fluid_density=operational_setting.get_fluid_density(consumer_index))
            consumer_results[consumer.name] = consumer_result
        consumer_system_operational_settings_results.append(ConsumerSystemOperationalSettingResult(consumer_results=list(consumer_results.values())))
    operational_setting_number_used_per_timestep = get_operational_settings_number_used_from_model_results(consumer_system_operational_settings_results=consumer_system_operational_settings_results)
    crossover_used = []
    actual_operational_settings = {consumer_index: {'rate': [], 'suction_pressure': [], 'discharge_pressure': [], 'fluid_density': []} for consumer_index in range(len(self.consumers))}
    for index, operational_setting_used in enumerate(operational_setting_number_used_per_timestep):
        operational_setting = self.operational_settings[operational_setting_used]
        crossover_per_consumer = []
        for consumer_index in range(len(self.consumers)):
            crossover_per_consumer.append(operational_setting.get_crossover_rate(consumer_index)[index])
            op_settings_for_consumer = actual_operational_settings[consumer_index]
            op_settings_for_consumer['rate'].append(operational_setting.get_rate_after_crossover(consumer_index)[index])
            op_settings_for_consumer['suction_pressure'].append(operational_setting.get_suction_pressure(consumer_index)[index])
            op_settings_for_consumer['discharge_pressure'].append(operational_setting.get_discharge_pressure(consumer_index)[index])
            fluid_density = operational_setting.get_fluid_density(consumer_index)
            op_settings_for_consumer['fluid_density'].append(fluid_density[index] if isinstance(fluid_density, np.ndarray) else fluid_density)
        crossover_used.append(any((cross > 0 for cross in crossover_per_consumer)))
    actual_component_results = []
    for consumer_index, consumer in enumerate(self.consumers):
        op_setting = actual_operational_settings[consumer_index]
        r = consumer.evaluate(rate=np.asarray(op_setting['rate']), suction_pressure=np.asarray(op_setting['suction_pressure']), discharge_pressure=np.asarray(op_setting['discharge_pressure']), fluid_density=np.asarray(op_setting['fluid_density']))
        actual_component_results.append(r)
    periods = self.operational_settings[0].rates[0].get_periods()
    consumer_results_with_name = [SystemComponentResultWithName(name=consumer.name, result=result) for consumer, result in zip(self.consumers, actual_component_results)]
    return ConsumerSystemConsumerFunctionResult(periods=periods, operational_setting_used=operational_setting_number_used_per_timestep, consumer_results=consumer_results_with_name, cross_over_used=np.asarray(crossover_used), power_loss_factor=self.power_loss_factor)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.consumer_function.ConsumerSystemConsumerFunction.calculate_operational_settings_after_cross_over", props=["C11"])
def ConsumerSystemConsumerFunction_calculate_operational_settings_after_cross_over(self, operational_setting):
    cross_over_specification = operational_setting.cross_overs or [0] * len(self.consumers)
    rates_after_cross_over = [np.array(rate.get_stream_day_values(), copy=True) for rate in operational_setting.rates]
    for consumer_index, cross_over_number in enumerate(cross_over_specification):
        if cross_over_number == 0:
            continue
        consumer_discharge_pressure = operational_setting.get_discharge_pressure(consumer_index)
        receiver_discharge_pressure = operational_setting.get_discharge_pressure(cross_over_number - 1)
        consumer_maximum_rate = self.consumers[consumer_index].get_max_standard_rate(suction_pressure=operational_setting.get_suction_pressure(consumer_index), discharge_pressure=consumer_discharge_pressure, fluid_density=operational_setting.get_fluid_density(consumer_index))
        transfer_rate = operational_setting.get_rate(consumer_index) - consumer_maximum_rate
        transfer_rate = np.where(transfer_rate > 0, transfer_rate, 0)
        transfer_rate = np.where(receiver_discharge_pressure >= consumer_discharge_pressure, transfer_rate, 0)
        rates_after_cross_over[consumer_index] -= transfer_rate
        rates_after_cross_over[cross_over_number - 1] += transfer_rate
    operational_setting.set_rates_after_crossover(rates_after_cross_over)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.__init__", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_init(self, rates, suction_pressures, discharge_pressures, cross_overs=None, fluid_densities=None):
    self._rates = rates
    self.suction_pressures = suction_pressures
    self.discharge_pressures = discharge_pressures
    self.cross_overs = cross_overs
    self.fluid_densities = fluid_densities
    self.check_list_length()
    self._rates_after_crossover = None


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.number_of_consumers", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_number_of_consumers(self):
    return len(self.rates)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.rates", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_rates(self):
    return self._rates


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.set_rates_after_crossover", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_set_rates_after_crossover(self, rates_after_crossover):
    self._rates_after_crossover = rates_after_crossover


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_rate", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_rate(self, consumer_index):
    return np.asarray(self._rates[consumer_index].get_stream_day_values())


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_rate_after_crossover", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_rate_after_crossover(self, consumer_index):
    return self._rates_after_crossover[consumer_index] if self._rates_after_crossover is not None else self.get_rate(consumer_index)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_crossover_rate", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_crossover_rate(self, consumer_index):
    return self.get_rate_after_crossover(consumer_index) - self.get_rate(consumer_index)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_suction_pressure", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_suction_pressure(self, consumer_index):
    return np.asarray(self.suction_pressures[consumer_index].get_values())


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_discharge_pressure", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_discharge_pressure(self, consumer_index):
    return np.asarray(self.discharge_pressures[consumer_index].get_values())


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.get_fluid_density", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_get_fluid_density(self, consumer_index):
    return np.asarray(self.fluid_densities[consumer_index].get_values()) if self.fluid_densities is not None else 1


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.operational_setting.ConsumerSystemOperationalSettingExpressions.check_list_length", props=["C11"])
def ConsumerSystemOperationalSettingExpressions_check_list_length(self):

    def _log_error(field, field_values, n_rates):
        msg = f'All attributes in a consumer system operational setting must have the same number of elements(corresponding to the number of consumers). The number of elements in {field} ({len(field_values)}) is not equal to the number of elements in rates ({n_rates}).'
        raise EcalcValidationException(message=msg)
    rates = self.rates
    suction_pressures = self.suction_pressures
    discharge_pressures = self.discharge_pressures
    cross_overs = self.cross_overs
    n_rates = len(rates)
    if len(suction_pressures) != n_rates:
        _log_error(field='suction_pressures', field_values=suction_pressures, n_rates=n_rates)
    if len(discharge_pressures) != n_rates:
        _log_error(field='discharge_pressures', field_values=discharge_pressures, n_rates=n_rates)
    if cross_overs and len(cross_overs) != n_rates:
        _log_error(field='cross_overs', field_values=cross_overs, n_rates=n_rates)
    return self


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.__init__", props=["C11"])
def ConsumerSystemOperationalSettingResult_init(self, consumer_results):
    self.consumer_results = consumer_results
    self._consumer_energy_results = [consumer_result.get_energy_result() for consumer_result in consumer_results]


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.__len__", props=["C11"])
def ConsumerSystemOperationalSettingResult_len(self):
    return len(self._consumer_energy_results[0].energy_usage)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.energy_usage", props=["C11"])
def ConsumerSystemOperationalSettingResult_energy_usage(self):
    return np.sum([np.asarray(result.energy_usage.values) for result in self._consumer_energy_results], axis=0)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.power", props=["C11"])
def ConsumerSystemOperationalSettingResult_power(self):
    return np.sum([np.asarray(result.power.values) if result.power is not None else np.zeros_like(result.energy_usage.values) for result in self._consumer_energy_results], axis=0)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.is_valid", props=["C11"])
def ConsumerSystemOperationalSettingResult_is_valid(self):
    return np.multiply.reduce([np.asarray(result.is_valid) for result in self._consumer_energy_results], axis=0).astype(bool)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.indices_outside_capacity", props=["C11"])
def ConsumerSystemOperationalSettingResult_indices_outside_capacity(self):
    return np.asarray([i for i, is_valid in enumerate(self.is_valid) if not is_valid])


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemOperationalSettingResult.indices_within_capacity", props=["C11"])
def ConsumerSystemOperationalSettingResult_indices_within_capacity(self):
    return np.asarray([i for i, is_valid in enumerate(self.is_valid) if is_valid])


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.__init__", props=["C11"])
def ConsumerSystemConsumerFunctionResult_init(self, operational_setting_used, consumer_results, cross_over_used, periods, power_loss_factor):
    self.periods = periods
    self._power_loss_factor = power_loss_factor
    self.operational_setting_used = operational_setting_used
    self.consumer_results = consumer_results
    self._energy_results = {result.name: result.result.get_energy_result() for result in consumer_results}
    self.cross_over_used = cross_over_used


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.energy_usage_before_power_loss_factor", props=["C11"])
def ConsumerSystemConsumerFunctionResult_energy_usage_before_power_loss_factor(self):
    return np.sum([np.asarray(result.energy_usage.values) for result in self._energy_results.values()], axis=0)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.energy_usage", props=["C11"])
def ConsumerSystemConsumerFunctionResult_energy_usage(self):
    if self._power_loss_factor is not None:
        return np.asarray(self._power_loss_factor.apply(energy_usage=self.energy_usage_before_power_loss_factor))
    else:
        return self.energy_usage_before_power_loss_factor


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.power_loss_factor", props=["C11"])
def ConsumerSystemConsumerFunctionResult_power_loss_factor(self):
    if self._power_loss_factor is None:
        return None
    return np.asarray(self._power_loss_factor.get_values())


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult._power_before_power_loss_factor", props=["C11"])
def ConsumerSystemConsumerFunctionResult_power_before_power_loss_factor(self):
    return np.sum([np.asarray(result.power.values) if result.power is not None else np.zeros_like(result.energy_usage.values) for result in self._energy_results.values()], axis=0)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.power", props=["C11"])
def ConsumerSystemConsumerFunctionResult_power(self):
    if self._power_loss_factor is not None:
        return np.asarray(self._power_loss_factor.apply(energy_usage=self._power_before_power_loss_factor))
    else:
        return self._power_before_power_loss_factor


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.is_valid", props=["C11"])
def ConsumerSystemConsumerFunctionResult_is_valid(self):
    return np.multiply.reduce([np.asarray(result.is_valid) for result in self._energy_results.values()], axis=0).astype(bool)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.results.ConsumerSystemConsumerFunctionResult.energy_usage_unit", props=["C11"])
def ConsumerSystemConsumerFunctionResult_energy_usage_unit(self):
    units = {res.energy_usage.unit for res in self._energy_results.values()}
    return next(iter(units))


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.types.ConsumerSystemComponent.__init__", props=["C11"])
def ConsumerSystemComponent_init(self, name, facility_model, fluid_model=None):
    self._name = name
    self._facility_model = facility_model
    self._fluid_model = fluid_model


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.types.ConsumerSystemComponent.name", props=["C11"])
def ConsumerSystemComponent_name(self):
    return self._name


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.types.ConsumerSystemComponent.get_max_standard_rate", props=["C11"])
def ConsumerSystemComponent_get_max_standard_rate(self, suction_pressure, discharge_pressure, fluid_density=None):
    model = self._facility_model
    if isinstance(model, CompressorTrainModel):
        return model.get_max_standard_rate(suction_pressures=suction_pressure, discharge_pressures=discharge_pressure, fluid_model=self._fluid_model)
    elif isinstance(model, PumpModel):
        return model.get_max_standard_rates(suction_pressures=suction_pressure, discharge_pressures=discharge_pressure, fluid_densities=fluid_density)
    elif isinstance(model, CompressorWithTurbineModel):
        if isinstance(model.compressor_model, CompressorModelSampled):
            return model.get_max_standard_rate(suction_pressures=suction_pressure, discharge_pressures=discharge_pressure)
        return model.get_max_standard_rate(suction_pressures=suction_pressure, discharge_pressures=discharge_pressure, fluid_model=self._fluid_model)
    elif isinstance(model, CompressorModelSampled):
        return model.get_max_standard_rate(suction_pressures=suction_pressure, discharge_pressures=discharge_pressure)
    else:
        assert_never(model)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.types.ConsumerSystemComponent.evaluate", props=["C11"])
def ConsumerSystemComponent_evaluate(self, rate, suction_pressure, discharge_pressure, fluid_density=None):
    model = self._facility_model
    if isinstance(model, PumpModel):
        return model.evaluate_rate_ps_pd_density(rates=rate, suction_pressures=suction_pressure, discharge_pressures=discharge_pressure, fluid_densities=fluid_density)
    elif isinstance(model, CompressorTrainModel):
        model.set_evaluation_input(rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_model=self._fluid_model)
        return model.evaluate()
    elif isinstance(model, CompressorWithTurbineModel):
        if isinstance(model.compressor_model, CompressorModelSampled):
            model.compressor_model.set_evaluation_input(rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_model=None)
        else:
            model.compressor_model.set_evaluation_input(rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_model=self._fluid_model)
        return model.evaluate()
    elif isinstance(model, CompressorModelSampled):
        model.set_evaluation_input(rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_model=None)
        return model.evaluate()
    else:
        assert_never(model)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.system.utils.get_operational_settings_number_used_from_model_results", props=["C11"])
def f_get_operational_settings_number_used_from_model_results(consumer_system_operational_settings_results):
    result_length = len(consumer_system_operational_settings_results[0])
    operational_setting_used = np.full(result_length, 0)
    remaining_indices_time_steps_outside_capacity = np.arange(result_length)
    if len(consumer_system_operational_settings_results) > 1:
        for i, operational_setting_results in enumerate(consumer_system_operational_settings_results[:-1]):
            indices_time_steps_outside_capacity = operational_setting_results.indices_outside_capacity
            remaining_indices_time_steps_outside_capacity = np.intersect1d(remaining_indices_time_steps_outside_capacity, indices_time_steps_outside_capacity)
            if len(remaining_indices_time_steps_outside_capacity) == 0:
                break
            operational_setting_used[remaining_indices_time_steps_outside_capacity] = i + 1
    if len(remaining_indices_time_steps_outside_capacity) > 0:
        if len(consumer_system_operational_settings_results[-1].indices_outside_capacity) > 0:
            pass
    return operational_setting_used


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function.TabularConsumerFunction.__init__", props=["C11"])
def TabularConsumerFunction_init(self, headers, data, variables, power_loss_factor=None):
    self._tabular_energy_function = TabularEnergyFunction(headers=headers, data=data)
    self._variables = variables
    self._power_loss_factor = power_loss_factor


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function.TabularConsumerFunction.evaluate", props=["C11"])
def TabularConsumerFunction_evaluate(self):
    energy_function_result = self.evaluate_variables(variables=self._variables)
    return ConsumerFunctionResult(periods=self._variables[0].get_periods(), energy_function_result=energy_function_result, power_loss_factor=self._power_loss_factor)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function.TabularConsumerFunction.evaluate_variables", props=["C11"])
def TabularConsumerFunction_evaluate_variables(self, variables):
    variables_map_by_name = {variable.name: variable.get_values() for variable in variables}
    _check_variables_match_required(variables_to_evaluate=list(variables_map_by_name.keys()), required_variables=self._tabular_energy_function.required_variables)
    variables_array_for_evaluation = np.asarray([variables_map_by_name.get(variable_name) for variable_name in self._tabular_energy_function.required_variables])
    variables_array_for_evaluation = np.squeeze(variables_array_for_evaluation)
    variables_array_for_evaluation = np.transpose(variables_array_for_evaluation)
    energy_usage = self._tabular_energy_function.interpolate(variables_array_for_evaluation)
    energy_usage_list = array_to_list(energy_usage)
    if energy_usage_list is None:
        energy_usage_list = []
    return EnergyFunctionGenericResult(energy_usage=energy_usage_list, energy_usage_unit=Unit.MEGA_WATT if self._tabular_energy_function.energy_usage_type == EnergyUsageType.POWER else Unit.STANDARD_CUBIC_METER_PER_DAY, power=energy_usage_list if self._tabular_energy_function.energy_usage_type == EnergyUsageType.POWER else None, power_unit=Unit.MEGA_WATT if self._tabular_energy_function.energy_usage_type == EnergyUsageType.POWER else None)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function._check_variables_match_required", props=["C11"])
def f_check_variables_match_required(variables_to_evaluate, required_variables):
    if set(variables_to_evaluate) != set(required_variables):
        msg = 'Variables to evaluate must correspond to required variables. You should not end up here, please contact support.'
        raise IllegalStateException(msg)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.__init__", props=["C11"])
def TabularEnergyFunction_init(self, headers, data):
    self.headers = headers
    self.data = data
    self.validate_headers()
    self.validate_data()
    function_values = np.asarray(self.get_function_values(), dtype=np.float64)
    variables = [Variable(name=name, values=values) for name, values in self.get_variables().items()]
    self.required_variables = [variable.name for variable in variables]
    self._func = self._setup_interpolator(variables, function_values)
    self.energy_usage_type = self.get_energy_usage_type()


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.interpolate", props=["C11"])
def TabularEnergyFunction_interpolate(self, variables_array):
    return self._func(variables_array)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.get_column", props=["C11"])
def TabularEnergyFunction_get_column(self, header):
    return self.data[self.headers.index(header)]


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.get_energy_usage_type", props=["C11"])
def TabularEnergyFunction_get_energy_usage_type(self):
    return EnergyUsageType.POWER if EnergyUsageType.POWER.value in self.headers else EnergyUsageType.FUEL


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction._get_function_value_header", props=["C11"])
def TabularEnergyFunction_get_function_value_header(self):
    return self.get_energy_usage_type().value


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.get_function_values", props=["C11"])
def TabularEnergyFunction_get_function_values(self):
    return self.get_column(self._get_function_value_header())


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.get_variables", props=["C11"])
def TabularEnergyFunction_get_variables(self):
    variable_headers = [header for header in self.headers if header != self._get_function_value_header()]
    return {header: self.get_column(header) for header in variable_headers}


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.validate_headers", props=["C11"])
def TabularEnergyFunction_validate_headers(self):
    is_valid_headers = len(self.headers) > 0 and ('FUEL' in self.headers or 'POWER' in self.headers)
    if not is_valid_headers:
        msg = "TABULAR facility input type data must have a 'FUEL' or 'POWER' header"
        raise ProcessHeaderValidationException(message=str(msg))


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction.validate_data", props=["C11"])
def TabularEnergyFunction_validate_data(self):
    lengths = [len(lst) for lst in self.data]
    if len(set(lengths)) > 1:
        problematic_vectors = [(i, len(lst)) for i, lst in enumerate(self.data)]
        msg = f'TABULAR facility input type data should have equal number of datapoints for all headers. Found lengths: {problematic_vectors}'
        raise ProcessEqualLengthValidationException(message=str(msg))
    for column_index, header in enumerate(self.headers):
        for row_index, value in enumerate(self.data[column_index]):
            try:
                float(value)
            except ValueError as e:
                raise InvalidColumnException(header=header, message=f"Got non-numeric value '{value}'.", row_index=row_index)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_energy_function.TabularEnergyFunction._setup_interpolator", props=["C11"])
def TabularEnergyFunction_setup_interpolator(variables, function_values_adjusted):
    if len(variables) == 1:
        return setup_interpolator_1d(variable=np.array(variables[0].values), function_values=np.array(function_values_adjusted), fill_value=np.nan, bounds_error=False)
    else:
        return setup_interpolator_n_dimensional(variables=[np.array(v.values) for v in variables], function_values=np.array(function_values_adjusted), fill_value=np.nan, rescale=True)


@target("libecalc.common.priority_optimizer.PriorityOptimizer.optimize", props=["C11"])
def PriorityOptimizer_optimize(self, priorities, evaluator):
    priority_used = priorities[-1]
    priority_results = defaultdict(dict)
    for priority in priorities:
        evaluator_results = evaluator(priority)
        for evaluator_result in evaluator_results:
            priority_results[priority][evaluator_result.id] = evaluator_result.result
        all_evaluator_results_valid = reduce(operator.mul, [evaluator_result.is_valid for evaluator_result in evaluator_results])
        if all_evaluator_results_valid:
            priority_used = priority
            break
    return PriorityOptimizerResult(priority_used=priority_used, priority_results=[ecalc_model_result.component_result for ecalc_model_result in priority_results[priority_used].values()])


@target("libecalc.common.utils.nan_handling.clean_nan_values", props=["C11"])
def f_clean_nan_values(values):
    filled = pd.Series(values).ffill().to_numpy()
    result = np.nan_to_num(filled)
    return result
