# Reference equations for C02 (parsed by the checker, never executed).
from datetime import date, datetime, timedelta

import numpy as np
import pandas as pd

from libecalc.common.errors.exceptions import InvalidDateException, ProgrammingError
from libecalc.common.temporal_model import InvalidKeys, Model, TemporalModel, UnsortedKeys
from libecalc.common.time_utils import Frequency, Period, Periods
from libecalc.common.units import UnitConstants
from libecalc.common.variables import VariablesMap


@target("libecalc.common.time_utils.Period")
class PeriodFields:
    start = datetime.min
    end = datetime.max.replace(microsecond=0)


@target("libecalc.common.time_utils.Frequency")
class FrequencyValues:
    NONE = "none"
    YEAR = "YS"
    MONTH = "MS"
    DAY = "D"


@target("libecalc.common.time_utils.calculate_delta_days")
def delta_days(time_vector):
    return [x.total_seconds() / 86400 for x in np.diff(time_vector)]


@target("libecalc.common.time_utils.Period.__contains__")
def Period_contains(self, date_or_period):
    if isinstance(date_or_period, datetime):
        return self.start <= date_or_period and date_or_period < self.end
    if isinstance(date_or_period, Period):
        return self.start <= date_or_period.start and date_or_period.start < date_or_period.end and date_or_period.end <= self.end


def shared(a, b):
    return (b.start <= a.start and a.start < b.end) or (a.start <= b.start and b.start < a.end)


@target("libecalc.common.time_utils.Period.intersects")
def Period_intersects(first, second):
    return shared(first, second)


@target("libecalc.common.time_utils.Period.intersection")
def Period_intersection(first, second):
    if shared(first, second):
        return Period(start=max(first.start, second.start), end=min(first.end, second.end))
    return None


@target("libecalc.common.time_utils.Period.get_period_indices")
def Period_get_period_indices(self, periods):
    try:
        start_index = periods.start_dates.index(max(self.start, periods.periods[0].start))
        end_index = periods.all_dates.index(min(self.end, periods.periods[-1].end))
        return (start_index, end_index)
    except (IndexError, ValueError):
        raise ProgrammingError(f'Trying to access a period index that does not exist. Please contact eCalc support.\n\tPeriod: {self.start}:{self.end} - periods: {periods}')


@target("libecalc.common.time_utils.Period.get_timesteps")
def Period_get_timesteps(self, timesteps):
    return [t for t in timesteps if t in self]


@target("libecalc.common.time_utils.Period.get_periods")
def Period_get_periods(self, periods):
    if not Period.intersects(periods.period, self):
        return Periods([])
    start_index, end_index = self.get_period_indices(periods)
    return periods[start_index:end_index]


@target("libecalc.common.time_utils.Period.duration")
def Period_duration(self):
    return self.end - self.start


@target("libecalc.common.time_utils.Periods.create_periods")
def Periods_create_periods(times, include_before=True, include_after=True):
    if len(times) == 0:
        return Periods([])
    before = [Period(start=datetime.min, end=times[0])] if include_before else []
    after = [Period(start=times[-1], end=datetime.max.replace(microsecond=0))] if include_after else []
    return Periods(before + [Period(start=times[i], end=times[i + 1]) for i in range(len(times) - 1)] + after)


@target("libecalc.common.time_utils.Periods.__iter__")
def Periods_iter(self):
    return iter(self.periods)


@target("libecalc.common.time_utils.Periods.get_period")
def Periods_get_period(self, period):
    for candidate in self.periods:
        if period in candidate:
            return candidate
    return None


@target("libecalc.common.time_utils.Periods.all_dates")
def Periods_all_dates(self):
    return [p.start for p in self.periods] + [[p.end for p in self.periods][-1]]


@target("libecalc.common.time_utils.Periods.start_dates")
def Periods_start_dates(self):
    return [period.start for period in self.periods]


@target("libecalc.common.time_utils.Periods.end_dates")
def Periods_end_dates(self):
    return [period.end for period in self.periods]


@target("libecalc.common.time_utils.Periods.last_date")
def Periods_last_date(self):
    return [period.end for period in self.periods][-1]


@target("libecalc.common.time_utils.Periods.first_date")
def Periods_first_date(self):
    return [period.start for period in self.periods][0]


@target("libecalc.common.time_utils.Periods.__add__")
def Periods_add(self, other):
    return Periods(self.periods + other.periods)


@target("libecalc.common.time_utils.Periods.__len__")
def Periods_len(self):
    return len(self.periods)


@target("libecalc.common.time_utils.Periods.__getitem__")
def Periods_getitem(self, indices):
    if isinstance(indices, slice):
        return Periods(self.periods[indices])
    elif isinstance(indices, int):
        return Periods([self.periods[indices]])
    elif isinstance(indices, list):
        return Periods([self.periods[i] for i in indices])
    raise ValueError()


@target("libecalc.common.time_utils.Periods.period")
def Periods_period(self):
    return Period(start=self.periods[0].start, end=self.periods[-1].end)


@target("libecalc.common.time_utils.define_time_model_for_period", opaque=['libecalc.common.time_utils.default_temporal_model'])
def f_define_time_model_for_period(time_model_data, target_period):
    if time_model_data is None:
        return None
    return {
        Period.intersection(valid, target_period): model
        for valid, model in default_temporal_model(time_model_data, target_period).items()
        if Period.intersects(valid, target_period)
    }


@target("libecalc.common.time_utils.resample_periods")
def f_resample_periods(periods, frequency, include_start_date=True, include_end_date=True):
    if frequency == Frequency.NONE:
        return periods
    dates = create_start_and_end_dates_for_periods(
        frequency, periods.periods[0].start, periods.periods[-1].end, include_start_date, include_end_date
    )
    return Periods.create_periods(times=dates, include_before=False, include_after=False)


@target("libecalc.common.time_utils.create_start_and_end_dates_for_periods")
def f_create_start_and_end_dates_for_periods(frequency, start, end, include_start_date, include_end_date):
    inner = [clear_time(d) for d in pd.date_range(start=start + timedelta(days=1), end=end - timedelta(days=1), freq=frequency.value)]
    if include_start_date:
        inner = [clear_time(start)] + inner
    if include_end_date:
        inner = [clear_time(end)] + inner
    return sorted(set(inner))


@target("libecalc.common.time_utils.clear_time")
def f_clear_time(d):
    return datetime.combine(d.date(), datetime.min.time())


@target("libecalc.common.time_utils.convert_date_to_datetime")
def f_convert_date_to_datetime(d):
    if isinstance(d, datetime):
        return d
    return datetime(d.year, d.month, d.day, 0, 0, 0)


@target("libecalc.common.time_utils.is_temporal_model")
def f_is_temporal_model(data):
    if isinstance(data, dict):
        is_period = []
        is_date = []
        for key in data:
            if isinstance(key, date):
                is_date.append(True)
                is_period.append(False)
            elif isinstance(key, Period):
                is_period.append(True)
                is_date.append(False)
            else:
                try:
                    split_key = key.split(";")
                    if len(split_key) == 1:
                        datetime.strptime(split_key[0], "%Y-%m-%dT%H:%M:%S")
                        is_date.append(True)
                        is_period.append(False)
                    else:
                        datetime.strptime(split_key[0], "%Y-%m-%d %H:%M:%S")
                        datetime.strptime(split_key[1], "%Y-%m-%d %H:%M:%S")
                        is_period.append(True)
                        is_date.append(False)
                except (TypeError, ValueError):
                    is_period.append(False)
                    is_date.append(False)
        if any(is_date):
            if not all(is_date):
                raise InvalidDateException(title='Invalid model', message=f'Temporal models should only contain date keys. Invalid date(s): {','.join(is_not_period_keys)}')
            return True
        if any(is_period):
            if not all(is_period):
                raise InvalidDateException(title='Invalid model', message=f'Temporal models should only contain date keys. Invalid date(s): {','.join(is_not_period_keys)}')
            return True
    return False


@target("libecalc.common.time_utils.default_temporal_model", opaque=['libecalc.common.time_utils.is_temporal_model'])
def f_default_temporal_model(data, default_period):
    if data is None:
        return None
    if not is_temporal_model(data):
        return {default_period: data}
    if isinstance(next(iter(data)), date):
        dates = [convert_date_to_datetime(key) for key in data.keys()] + [datetime.max.replace(microsecond=0)]
        return {Period(start=a, end=b): value for a, b, value in zip(dates[:-1], dates[1:], data.values())}
    return {
        Period(start=convert_date_to_datetime(key.start), end=convert_date_to_datetime(key.end)): value for key, value in data.items()
    }


@target("libecalc.common.temporal_model.TemporalModel.__init__")
def TemporalModel_init(self, data):
    periods = []
    models = []
    if all(isinstance(key, datetime) for key in data.keys()):
        dates = list(data.keys()) + [datetime.max.replace(microsecond=0)]
        for start, end, model in zip(dates[:-1], dates[1:], data.values()):
            periods.append(Period(start=start, end=end))
            models.append(Model(period=Period(start=start, end=end), model=model))
    elif all(isinstance(key, Period) for key in data.keys()):
        for period, model in data.items():
            periods.append(period)
            models.append(Model(period=period, model=model))
    else:
        raise InvalidKeys(keys=list(data.keys()))
    self._periods = periods
    self._models = models
    if list(periods) != sorted(periods):
        raise UnsortedKeys(keys=list(data.keys()))


@target("libecalc.common.temporal_model.TemporalModel.get_models")
def TemporalModel_get_models(self):
    return [m.model for m in self._models]


@target("libecalc.common.temporal_model.TemporalModel.get_period")
def TemporalModel_get_period(self):
    return Period(start=self._periods[0].start, end=self._periods[-1].end)


@target("libecalc.common.temporal_model.TemporalModel.get_periods")
def TemporalModel_get_periods(self):
    return self._periods


@target("libecalc.common.temporal_model.TemporalModel.items")
def TemporalModel_items(self):
    return ((m.period, m.model) for m in self._models)


@target("libecalc.common.temporal_model.TemporalModel.get_model")
def TemporalModel_get_model(self, period):
    for m in self._models:
        if period in m.period:
            return m.model
    raise ValueError()


@target("libecalc.common.temporal_model.TemporalModel.create")
def TemporalModel_create(cls, data, target_period):
    from libecalc.common.time_utils import define_time_model_for_period as restrict

    model = restrict(data, target_period)
    return None if model is None else cls(model)


@target("libecalc.common.variables.VariablesMap.__init__")
def VariablesMap_init(self, periods, variables=None):
    self._periods = periods
    self._time_vector = periods.all_dates
    self._variables = variables or {}


@target("libecalc.common.variables.VariablesMap.period")
def VariablesMap_period(self):
    return Period(start=self._time_vector[0], end=self._time_vector[-1])


@target("libecalc.common.variables.VariablesMap.get_subset")
def VariablesMap_get_subset(self, start_index, end_index):
    dates = self._time_vector[start_index : end_index + 1]
    return VariablesMap(
        variables={ref: array[start_index:end_index] for ref, array in self._variables.items()},
        periods=Periods.create_periods(dates, include_before=False, include_after=False),
    )


@target("libecalc.common.variables.VariablesMap.get_subset_for_period")
def VariablesMap_get_subset_for_period(self, period):
    whole = self.period
    if not Period.intersects(whole, period):
        return self.get_subset(0, 0)
    first = max(period.start, whole.start)
    last = min(period.end, whole.end)
    if first not in self._time_vector or last not in self._time_vector:
        raise ProgrammingError('Trying to access a period that does not exist in the global time vector. Please contact eCalc support.')
    return self.get_subset(self._time_vector.index(first), self._time_vector.index(last))


@target("libecalc.common.variables.VariablesMap.get_subset_for_timestep")
def VariablesMap_get_subset_for_timestep(self, current_timestep):
    i = self._time_vector.index(current_timestep)
    return self.get_subset(i, i + 1)


@target("libecalc.common.variables.VariablesMap.zeros")
def VariablesMap_zeros(self):
    return [0.0] * len(self.periods)


@target("libecalc.common.variables.VariablesMap.number_of_periods")
def VariablesMap_number_of_periods(self):
    return len(self._time_vector) - 1


@target("libecalc.common.variables.VariablesMap.periods", "libecalc.common.variables.VariablesMap.get_periods")
def VariablesMap_periods(self):
    return self._periods


@target("libecalc.common.variables.VariablesMap.get_period")
def VariablesMap_get_period(self):
    return Period(start=self._time_vector[0], end=self._time_vector[-1])


@target("libecalc.common.variables.VariablesMap._evaluate_temporal")
def VariablesMap_evaluate_temporal(self, temporal_expression):
    result = self.zeros()
    for period, expression in temporal_expression.items():
        if Period.intersects(period, self.get_period()):
            a, b = period.get_period_indices(self.get_periods())
            result[a:b] = self.get_subset(start_index=a, end_index=b).evaluate(expression)
    return np.asarray(result)


@target("libecalc.common.variables.VariablesMap.evaluate")
def VariablesMap_evaluate(self, expression):
    if isinstance(expression, Expression):
        return expression.evaluate(variables=self._variables, fill_length=len(self.get_periods()))
    if isinstance(expression, dict):
        return self._evaluate_temporal(temporal_expression=TemporalModel(expression))
    if isinstance(expression, TemporalModel):
        return self._evaluate_temporal(temporal_expression=expression)
    assert_never(expression)
