# Reference equations (parsed by the checker, never executed).
import numpy as np
from datetime import date, datetime
from libecalc.common.time_utils import Period, is_temporal_model
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, Rates, TimeSeriesFloat
from libecalc.domain.regularity import InvalidRegularity
from libecalc.dto.utils.validators import convert_expression
from libecalc.expression import Expression
from libecalc.expression.expression import InvalidExpressionError
from libecalc.expression.temporal_expression import TemporalExpression
from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
from libecalc.presentation.yaml.domain.expression_time_series_flow_rate import InvalidFlowRateException
from libecalc.presentation.yaml.domain.expression_time_series_pressure import InvalidPressureException
from libecalc.presentation.yaml.domain.time_series_mask import TimeSeriesMask
COMPONENT_NAME_ALLOWED_CHARS = 'A-ZÆØÅa-zæøå\\d_/\\- '


@target("libecalc.presentation.yaml.domain.expression_time_series_cable_loss.ExpressionTimeSeriesCableLoss.__init__", props=["C08", "C10"])
def ExpressionTimeSeriesCableLoss_init(self, time_series_expression, category):
    self._time_series_expression = time_series_expression
    self._category = category


@target("libecalc.presentation.yaml.domain.expression_time_series_cable_loss.ExpressionTimeSeriesCableLoss.get_values", props=["C08", "C10"])
def ExpressionTimeSeriesCableLoss_get_values(self):
    cable_loss_values = self._time_series_expression.get_evaluated_expression()
    periods = self.get_periods()
    result = []
    for period, cable_loss in zip(periods, cable_loss_values):
        try:
            if self._category.get_model(period) == ConsumerUserDefinedCategoryType.POWER_FROM_SHORE:
                result.append(cable_loss)
            else:
                result.append(0.0)
        except ValueError:
            result.append(0.0)
    return result


@target("libecalc.presentation.yaml.domain.expression_time_series_cable_loss.ExpressionTimeSeriesCableLoss.get_periods", props=["C08", "C10"])
def ExpressionTimeSeriesCableLoss_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.InvalidFlowRateException.__init__", props=["C08"])
def InvalidFlowRateException_init(self, rate, rate_expression):
    if str(rate) == rate_expression:
        msg = f'All rate values must be non negative, got {rate}.'
    else:
        msg = f'All rate values must be non negative, got {rate} in {rate_expression}.'
    super().__init__(message=msg)


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate.__init__", props=["C08"])
def ExpressionTimeSeriesFlowRate_init(self, time_series_expression, regularity, consumption_rate_type=RateType.CALENDAR_DAY):
    self._time_series_expression = time_series_expression
    self._regularity = regularity
    self._consumption_rate_type = consumption_rate_type
    self._rate_values = self._get_stream_day_values()
    if self._rate_values is not None:
        self._validate()


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate._validate", props=["C08"])
def ExpressionTimeSeriesFlowRate_validate(self):
    for rate in self._rate_values:
        if rate < 0:
            raise InvalidFlowRateException(rate, str(self._time_series_expression.get_expression()))


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate.get_original_expression", props=["C08"])
def ExpressionTimeSeriesFlowRate_get_original_expression(self):
    return self._time_series_expression


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate._get_stream_day_values", props=["C08"])
def ExpressionTimeSeriesFlowRate_get_stream_day_values(self):
    rate = self._time_series_expression.get_masked_values()
    rate_array = np.asarray(rate, dtype=np.float64)
    if self._consumption_rate_type == RateType.CALENDAR_DAY:
        rate_array = Rates.to_stream_day(calendar_day_rates=rate_array, regularity=self._regularity.values)
    return rate_array.tolist()


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate.get_stream_day_values", props=["C08"])
def ExpressionTimeSeriesFlowRate_get_stream_day_values_(self):
    return self._rate_values


@target("libecalc.presentation.yaml.domain.expression_time_series_flow_rate.ExpressionTimeSeriesFlowRate.get_periods", props=["C08"])
def ExpressionTimeSeriesFlowRate_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.presentation.yaml.domain.expression_time_series_fluid_density.ExpressionTimeSeriesFluidDensity.__init__", props=["C08"])
def ExpressionTimeSeriesFluidDensity_init(self, time_series_expression):
    self._time_series_expression = time_series_expression


@target("libecalc.presentation.yaml.domain.expression_time_series_fluid_density.ExpressionTimeSeriesFluidDensity.get_values", props=["C08"])
def ExpressionTimeSeriesFluidDensity_get_values(self):
    fluid_density_values = self._time_series_expression.get_evaluated_expression()
    return fluid_density_values


@target("libecalc.presentation.yaml.domain.expression_time_series_max_usage_from_shore.ExpressionTimeSeriesMaxUsageFromShore.__init__", props=["C08", "C10"])
def ExpressionTimeSeriesMaxUsageFromShore_init(self, time_series_expression):
    self._time_series_expression = time_series_expression


@target("libecalc.presentation.yaml.domain.expression_time_series_max_usage_from_shore.ExpressionTimeSeriesMaxUsageFromShore.get_values", props=["C08", "C10"])
def ExpressionTimeSeriesMaxUsageFromShore_get_values(self):
    max_usage_from_shore_values = self._time_series_expression.get_evaluated_expression()
    return max_usage_from_shore_values


@target("libecalc.presentation.yaml.domain.expression_time_series_power.ExpressionTimeSeriesPower.__init__", props=["C08"])
def ExpressionTimeSeriesPower_init(self, time_series_expression, regularity, consumption_rate_type=RateType.CALENDAR_DAY):
    self._time_series_expression = time_series_expression
    self._regularity = regularity
    self._consumption_rate_type = consumption_rate_type


@target("libecalc.presentation.yaml.domain.expression_time_series_power.ExpressionTimeSeriesPower.get_stream_day_values", props=["C08"])
def ExpressionTimeSeriesPower_get_stream_day_values(self):
    power = self._time_series_expression.get_masked_values()
    power_array = np.asarray(power, dtype=np.float64)
    if self._consumption_rate_type == RateType.CALENDAR_DAY:
        power_array = Rates.to_stream_day(calendar_day_rates=power_array, regularity=self._regularity.values)
    return power_array.tolist()


@target("libecalc.presentation.yaml.domain.expression_time_series_power.ExpressionTimeSeriesPower.get_periods", props=["C08"])
def ExpressionTimeSeriesPower_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.presentation.yaml.domain.expression_time_series_power_loss_factor.ExpressionTimeSeriesPowerLossFactor.__init__", props=["C08"])
def ExpressionTimeSeriesPowerLossFactor_init(self, time_series_expression):
    self._time_series_expression = time_series_expression


@target("libecalc.presentation.yaml.domain.expression_time_series_power_loss_factor.ExpressionTimeSeriesPowerLossFactor.get_values", props=["C08"])
def ExpressionTimeSeriesPowerLossFactor_get_values(self):
    power_loss_factor = self._time_series_expression.get_evaluated_expression()
    if not power_loss_factor:
        return [0.0] * len(self._time_series_expression.expression_evaluator.get_periods())
    return list(power_loss_factor)


@target("libecalc.presentation.yaml.domain.expression_time_series_power_loss_factor.ExpressionTimeSeriesPowerLossFactor.apply", props=["C08"])
def ExpressionTimeSeriesPowerLossFactor_apply(self, energy_usage):
    power_loss_factor = np.asarray(self.get_values(), dtype=np.float64)
    if not np.any(power_loss_factor):
        return list(energy_usage)
    return list(energy_usage / (1.0 - power_loss_factor))


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.InvalidPressureException.__init__", props=["C08"])
def InvalidPressureException_init(self, pressure, pressure_expression):
    if str(pressure) == pressure_expression:
        msg = f'All pressure values must be non-negative, got {pressure}.'
    else:
        msg = f'All pressure values must be non-negative, got {pressure} in {pressure_expression}.'
    super().__init__(message=msg)


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.ExpressionTimeSeriesPressure.__init__", props=["C08"])
def ExpressionTimeSeriesPressure_init(self, time_series_expression, validation_mask=None):
    self._time_series_expression = time_series_expression
    self._pressure_values = self._time_series_expression.get_evaluated_expression()
    self._validation_mask = validation_mask
    self._validate()


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.ExpressionTimeSeriesPressure._validate", props=["C08"])
def ExpressionTimeSeriesPressure_validate(self):
    if self._validation_mask is None:
        self._validation_mask = [True] * len(self._pressure_values)
    for pressure, should_validate in zip(self._pressure_values, self._validation_mask):
        if should_validate:
            if pressure < 0:
                raise InvalidPressureException(pressure, str(self._time_series_expression.get_expression()))


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.ExpressionTimeSeriesPressure.get_periods", props=["C08"])
def ExpressionTimeSeriesPressure_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.ExpressionTimeSeriesPressure.get_values", props=["C08"])
def ExpressionTimeSeriesPressure_get_values(self):
    pressure_values = self._pressure_values
    return list(pressure_values)


@target("libecalc.presentation.yaml.domain.expression_time_series_pressure.ExpressionTimeSeriesPressure.get_validation_mask", props=["C08"])
def ExpressionTimeSeriesPressure_get_validation_mask(self):
    return self._validation_mask


@target("libecalc.presentation.yaml.domain.expression_time_series_variable.ExpressionTimeSeriesVariable.__init__", props=["C08"])
def ExpressionTimeSeriesVariable_init(self, name, time_series_expression, regularity, is_rate=True):
    self._name = name
    self._time_series_expression = time_series_expression
    self._regularity = regularity
    self._is_rate = is_rate


@target("libecalc.presentation.yaml.domain.expression_time_series_variable.ExpressionTimeSeriesVariable.name", props=["C08"])
def ExpressionTimeSeriesVariable_name(self):
    return self._name


@target("libecalc.presentation.yaml.domain.expression_time_series_variable.ExpressionTimeSeriesVariable.is_rate", props=["C08"])
def ExpressionTimeSeriesVariable_is_rate(self):
    return self._is_rate


@target("libecalc.presentation.yaml.domain.expression_time_series_variable.ExpressionTimeSeriesVariable.get_values", props=["C08"])
def ExpressionTimeSeriesVariable_get_values(self):
    values = np.asarray(self._time_series_expression.get_masked_values(), dtype=np.float64)
    if self.is_rate:
        values = Rates.to_stream_day(calendar_day_rates=values, regularity=self._regularity.values)
    return values.tolist()


@target("libecalc.presentation.yaml.domain.expression_time_series_variable.ExpressionTimeSeriesVariable.get_periods", props=["C08"])
def ExpressionTimeSeriesVariable_get_periods(self):
    return self._time_series_expression.expression_evaluator.get_periods()


@target("libecalc.presentation.yaml.domain.time_series_mask.TimeSeriesMask.__init__", props=["C08"])
def TimeSeriesMask_init(self, mask):
    self._mask = mask


@target("libecalc.presentation.yaml.domain.time_series_mask.TimeSeriesMask.apply", props=["C08"])
def TimeSeriesMask_apply(self, array):
    if self._mask is None:
        return np.array(array)
    return np.where(self._mask, array, 0)


@target("libecalc.presentation.yaml.domain.time_series_mask.TimeSeriesMask.from_array", props=["C08"])
def TimeSeriesMask_from_array(mask):
    if mask is None:
        return TimeSeriesMask(None)
    return TimeSeriesMask((np.asarray(mask) != 0).astype(int))


@target("libecalc.domain.regularity.Regularity.__init__", props=["C03", "C08"])
def Regularity_init(self, expression_evaluator, target_period, expression_input=None):
    self.target_period = target_period
    self.expression_evaluator = expression_evaluator
    if expression_input is None or expression_input in ('', {}):
        expression_input = self.default_expression_value()
    try:
        self.temporal_expression = TemporalExpression(expression=expression_input, target_period=target_period, expression_evaluator=expression_evaluator)
    except (ValueError, InvalidExpressionError) as e:
        raise InvalidRegularity(str(e))
    self.validate()


@target("libecalc.domain.regularity.Regularity.values", props=["C03", "C08"])
def Regularity_values(self):
    return self.time_series.values


@target("libecalc.domain.regularity.Regularity.time_series", props=["C03", "C08"])
def Regularity_time_series(self):
    return TimeSeriesFloat(periods=self.expression_evaluator.get_periods(), values=self.temporal_expression.evaluate(), unit=Unit.NONE)


@target("libecalc.domain.regularity.Regularity.default_expression_value", props=["C03", "C08"])
def Regularity_default_expression_value():
    return 1


@target("libecalc.domain.regularity.Regularity.validate", props=["C03", "C08"])
def Regularity_validate(self):
    values = self.temporal_expression.evaluate()
    invalid_values = [value for value in values if not 0 <= value <= 1]
    if invalid_values:
        msg = f'REGULARITY must evaluate to fractions between 0 and 1. Invalid values: {invalid_values}'
        raise InvalidRegularity(message=msg)


@target("libecalc.domain.regularity.Regularity.get_subset", props=["C03", "C08"])
def Regularity_get_subset(self, start_index, end_index):
    period_evaluator = self.expression_evaluator.get_subset(start_index=start_index, end_index=end_index)
    periods = period_evaluator.get_periods().periods
    new_target_period = Period(start=periods[0].start, end=periods[-1].end)
    return self.__class__(expression_evaluator=period_evaluator, target_period=new_target_period, expression_input=self.temporal_expression.expression)


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.common.VariableExpression.__init__", props=["C08", "C11"])
def VariableExpression_init(self, name, expression):
    self.name = name
    self.expression = expression


@target("libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.common.Variable.__init__", props=["C08", "C11"])
def Variable_init(self, name, values):
    self.name = name
    self.values = values


@target("libecalc.dto.utils.validators", props=["C08"])
class K42_constants:
    COMPONENT_NAME_ALLOWED_CHARS = 'A-ZÆØÅa-zæøå\\d_/\\- '
    COMPONENT_NAME_PATTERN = '^[' + COMPONENT_NAME_ALLOWED_CHARS + ']*$'


@target("libecalc.dto.utils.validators.convert_expression", props=["C08"])
def f_convert_expression(value):
    if value is None or isinstance(value, Expression):
        return value
    elif is_temporal_model(value):
        if all((isinstance(key, str) for key in value.keys())):
            return {Period(start=datetime.strptime(_key.split(';')[0], '%Y-%m-%d %H:%M:%S'), end=datetime.strptime(_key.split(';')[1], '%Y-%m-%d %H:%M:%S')): convert_expression(value=_value) for _key, _value in value.items()}
        if all((isinstance(key, date) for key in value.keys())):
            model_dates = list(value.keys()) + [datetime.max.replace(microsecond=0)]
            return {Period(start=start_time, end=end_time): convert_expression(value=expression) for start_time, end_time, expression in zip(model_dates[:-1], model_dates[1:], value.values())}
        return {start_time: convert_expression(value=expression) for start_time, expression in value.items()}
    return Expression.setup_from_expression(value=value)


@target("libecalc.dto.utils.validators.convert_expressions", props=["C08"])
def f_convert_expressions(value):
    if value is None:
        return value
    if not isinstance(value, list):
        return convert_expression(value=value)
    else:
        return [convert_expression(value=value) for value in value]


@target("libecalc.dto.utils.validators.uppercase_user_defined_category", props=["C08"])
def f_uppercase_user_defined_category(value):
    if value is not None and isinstance(value, str):
        return value.upper()
    elif value is not None and is_temporal_model(value):
        return {timestep: category.upper() for timestep, category in value.items()}
    return value


@target("libecalc.domain.process.evaluation_input.CompressorEvaluationInput.__init__", props=["C08"])
def CompressorEvaluationInput_init(self, rate, fluid_model, suction_pressure, discharge_pressure, power_loss_factor=None, intermediate_pressure=None):
    self._rate = rate
    self._fluid_model = fluid_model
    self._power_loss_factor = power_loss_factor
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure
    self._intermediate_pressure = intermediate_pressure


@target("libecalc.domain.process.evaluation_input.CompressorEvaluationInput.power_loss_factor", props=["C08"])
def CompressorEvaluationInput_power_loss_factor(self):
    return self._power_loss_factor


@target("libecalc.domain.process.evaluation_input.CompressorEvaluationInput.periods", props=["C08"])
def CompressorEvaluationInput_periods(self):
    if isinstance(self._rate, list):
        return self._rate[0].get_periods()
    return self._rate.get_periods()


@target("libecalc.domain.process.evaluation_input.CompressorEvaluationInput.apply_to_model", props=["C08"])
def CompressorEvaluationInput_apply_to_model(self, compressor_model):
    rate_expr = self._rate if isinstance(self._rate, list) else [self._rate]
    stream_day_rate = np.array([rate.get_stream_day_values() for rate in rate_expr], dtype=np.float64)
    intermediate_pressure = np.asarray(self._intermediate_pressure.get_values(), dtype=np.float64) if self._intermediate_pressure is not None else None
    suction_pressure = np.asarray(self._suction_pressure.get_values(), dtype=np.float64)
    discharge_pressure = np.asarray(self._discharge_pressure.get_values(), dtype=np.float64)
    compressor_model.set_evaluation_input(rate=stream_day_rate, fluid_model=self._fluid_model, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, intermediate_pressure=intermediate_pressure)


@target("libecalc.domain.process.evaluation_input.CompressorSampledEvaluationInput.__init__", props=["C08"])
def CompressorSampledEvaluationInput_init(self, rate, power_loss_factor=None, suction_pressure=None, discharge_pressure=None):
    self._rate = rate
    self._power_loss_factor = power_loss_factor
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure


@target("libecalc.domain.process.evaluation_input.CompressorSampledEvaluationInput.power_loss_factor", props=["C08"])
def CompressorSampledEvaluationInput_power_loss_factor(self):
    return self._power_loss_factor


@target("libecalc.domain.process.evaluation_input.CompressorSampledEvaluationInput.periods", props=["C08"])
def CompressorSampledEvaluationInput_periods(self):
    if isinstance(self._rate, list):
        return self._rate[0].get_periods()
    return self._rate.get_periods()


@target("libecalc.domain.process.evaluation_input.CompressorSampledEvaluationInput.apply_to_model", props=["C08"])
def CompressorSampledEvaluationInput_apply_to_model(self, compressor_model):
    rate_expr = [self._rate]
    stream_day_rate = np.asarray(rate_expr[0].get_stream_day_values(), dtype=np.float64)
    suction_pressure = np.asarray(self._suction_pressure.get_values(), dtype=np.float64) if self._suction_pressure is not None else None
    discharge_pressure = np.asarray(self._discharge_pressure.get_values(), dtype=np.float64) if self._discharge_pressure is not None else None
    compressor_model.set_evaluation_input(rate=stream_day_rate, fluid_model=None, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure)


@target("libecalc.domain.process.evaluation_input.PumpEvaluationInput.__init__", props=["C08"])
def PumpEvaluationInput_init(self, rate, suction_pressure, discharge_pressure, fluid_density, power_loss_factor=None):
    self._rate = rate
    self._fluid_density = fluid_density
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure
    self._power_loss_factor = power_loss_factor


@target("libecalc.domain.process.evaluation_input.PumpEvaluationInput.power_loss_factor", props=["C08"])
def PumpEvaluationInput_power_loss_factor(self):
    return self._power_loss_factor


@target("libecalc.domain.process.evaluation_input.PumpEvaluationInput.periods", props=["C08"])
def PumpEvaluationInput_periods(self):
    if isinstance(self._rate, list):
        return self._rate[0].get_periods()
    return self._rate.get_periods()


@target("libecalc.domain.process.evaluation_input.PumpEvaluationInput.apply_to_model", props=["C08"])
def PumpEvaluationInput_apply_to_model(self, pump_model):
    stream_day_rate = np.asarray(self._rate.get_stream_day_values(), dtype=np.float64)
    pump_model.set_evaluation_input(stream_day_rate=stream_day_rate, suction_pressure=np.asarray(self._suction_pressure.get_values(), dtype=np.float64), discharge_pressure=np.asarray(self._discharge_pressure.get_values(), dtype=np.float64), fluid_density=np.asarray(self._fluid_density.get_values(), dtype=np.float64))
