# Reference equations for time series (parsed by the checker, never executed).
import math
from collections import defaultdict

import numpy as np
import pandas as pd

from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.common.list.list_utils import elementwise_sum
from libecalc.common.time_utils import Frequency, Period, Periods, calculate_delta_days, resample_periods
from libecalc.common.units import Unit, UnitConstants
from libecalc.common.utils.rates import Rates, RateType, TimeSeries, TimeSeriesBoolean, TimeSeriesCalendarDayRate, TimeSeriesRate, TimeSeriesStreamDayRate, TimeSeriesVolumes, TimeSeriesVolumesCumulative


@target("libecalc.common.utils.rates.Rates.to_stream_day", props=["C03", "C04"])
def Rates_to_stream_day(calendar_day_rates, regularity):
    regularity = np.asarray(regularity, dtype=np.float64)
    return np.divide(calendar_day_rates, regularity, out=np.zeros_like(calendar_day_rates), where=regularity != 0.0)


@target("libecalc.common.utils.rates.Rates.to_calendar_day", props=["C03", "C04"])
def Rates_to_calendar_day(stream_day_rates, regularity):
    stream_day_rates_array = np.asarray(stream_day_rates, dtype=np.float64)
    regularity_array = np.asarray(regularity, dtype=np.float64)
    return stream_day_rates_array * regularity_array


@target("libecalc.common.utils.rates.Rates.to_volumes", props=["C04"])
def Rates_to_volumes(rates, periods):
    delta_days = [(period.end - period.start).total_seconds() / UnitConstants.SECONDS_IN_A_DAY for period in periods]
    rates_array = np.asarray(rates, dtype=np.float64)
    delta_days_array = np.asarray(delta_days, dtype=np.float64)
    return rates_array * delta_days_array


@target("libecalc.common.utils.rates.Rates.compute_cumulative", props=["C04"])
def Rates_compute_cumulative(volumes):
    return np.nancumsum(volumes)


@target("libecalc.common.utils.rates.Rates.compute_cumulative_volumes_from_daily_rates", props=["C04"])
def Rates_compute_cumulative_volumes_from_daily_rates(rates, periods):
    if rates is None or len(rates) == 0:
        raise ValueError()
    volumes = Rates.to_volumes(rates=rates, periods=periods)
    return Rates.compute_cumulative(volumes)


@target("libecalc.common.utils.rates.TimeSeries.period_values_one_to_one", props=["C04", "C05"])
def TimeSeries_period_values_one_to_one(cls, v, info):
    periods = info.data['periods']
    nr_periods = len(periods)
    nr_values = len(v)
    if nr_periods != nr_values:
        raise ValueError()
    return v


@target("libecalc.common.utils.rates.TimeSeries.__len__", props=["C04", "C05"])
def TimeSeries_len(self):
    return len(self.values)


@target("libecalc.common.utils.rates.TimeSeries.__lt__", props=["C05"])
def TimeSeries_lt(self, other):
    if not isinstance(other, TimeSeries):
        return NotImplemented
    return all((self_value < other_value for self_value, other_value in zip(self.values, other.values)))


@target("libecalc.common.utils.rates.TimeSeries.period", props=["C02", "C04", "C05"])
def TimeSeries_period(self):
    return Period(start=self.periods.periods[0].start, end=self.periods.periods[-1].end)


@target("libecalc.common.utils.rates.TimeSeries.first_date", props=["C02", "C04", "C05"])
def TimeSeries_first_date(self):
    return self.period.start


@target("libecalc.common.utils.rates.TimeSeries.last_date", props=["C02", "C04", "C05"])
def TimeSeries_last_date(self):
    return self.period.end


@target("libecalc.common.utils.rates.TimeSeries.all_dates", props=["C02", "C04", "C05"])
def TimeSeries_all_dates(self):
    return self.start_dates + [self.last_date]


@target("libecalc.common.utils.rates.TimeSeries.start_dates", props=["C02", "C04", "C05"])
def TimeSeries_start_dates(self):
    return [period.start for period in self.periods]


@target("libecalc.common.utils.rates.TimeSeries.end_dates", props=["C02", "C04", "C05"])
def TimeSeries_end_dates(self):
    return [period.end for period in self.periods]


@target("libecalc.common.utils.rates.TimeSeries.max", props=["C04", "C05"])
def TimeSeries_max(self):
    return max(self.values)


@target("libecalc.common.utils.rates.TimeSeries.resample", props=["C04"])
def TimeSeries_resample(self, freq, include_start_date=True, include_end_date=True):
    if freq is Frequency.NONE:
        return self.model_copy()
    ds = pd.Series(index=self.start_dates, data=self.values)
    new_periods = resample_periods(self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date)
    new_time_steps = new_periods.start_dates
    ds_resampled = ds.reindex(new_time_steps, method='ffill').ffill()
    return self.__class__(periods=new_periods, values=ds_resampled.values.tolist(), unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.extend", props=["C05"])
def TimeSeries_extend(self, other):
    if self.unit != other.unit:
        raise ValueError()
    if len(self) > 0 and len(other) > 0:
        if self.last_date != other.first_date and self.first_date != other.last_date:
            raise ValueError()
        if self.last_date == other.first_date:
            return self.__class__(periods=self.periods + other.periods, values=self.values + other.values, unit=self.unit)
    return self.__class__(periods=other.periods + self.periods, values=other.values + self.values, unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.merge", props=["C05"])
def TimeSeries_merge(self, other):
    if not isinstance(other, type(self)):
        raise ValueError()
    if self.unit != other.unit:
        raise ValueError()
    if Period.intersects(self.period, other.period) != 0:
        raise ValueError()
    if self.first_date != other.last_date and self.last_date != other.first_date:
        raise ValueError()
    if self.first_date < other.last_date:
        first = self
        second = other
    else:
        first = other
        second = self
    merged_periods = first.periods + second.periods
    merged_values = first.values + second.values
    return self.__class__(periods=merged_periods, values=merged_values, unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.datapoints", props=["C04", "C05"])
def TimeSeries_datapoints(self):
    yield from zip(self.periods, self.values)


@target("libecalc.common.utils.rates.TimeSeries.for_period", props=["C05"])
def TimeSeries_for_period(self, period):
    if period.start not in self.periods.all_dates or period.end not in self.periods.all_dates:
        raise ValueError()
    start_index, end_index = period.get_period_indices(self.periods)
    return self.__class__(periods=Periods(self.periods.periods[start_index:end_index]), values=self.values[start_index:end_index], unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.for_periods", props=["C05"])
def TimeSeries_for_periods(self, periods):
    if not all((period.start in self.periods.all_dates and period.end in self.periods.all_dates for period in periods)):
        raise ValueError()
    start_index, end_index = periods.period.get_period_indices(self.periods)
    return self.__class__(periods=Periods(self.periods.periods[start_index:end_index]), values=self.values[start_index:end_index], unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.to_unit", props=["C01", "C05"])
def TimeSeries_to_unit(self, unit):
    if unit == self.unit:
        return self.model_copy()
    return self.model_copy(update={'values': [self.unit.to(unit)(rate) for rate in self.values], 'unit': unit})


@target("libecalc.common.utils.rates.TimeSeries.forward_fill", props=["C04", "C05"])
def TimeSeries_forward_fill(self):
    return self.model_copy(update={'values': pd.Series(self.values).ffill().tolist()})


@target("libecalc.common.utils.rates.TimeSeries.fill_nan", props=["C04", "C05"])
def TimeSeries_fill_nan(self, fill_value):
    return self.model_copy(update={'values': pd.Series(self.values).fillna(fill_value).tolist()})


@target("libecalc.common.utils.rates.TimeSeries.__getitem__", props=["C05"])
def TimeSeries_getitem(self, indices):
    if isinstance(indices, slice):
        return self.__class__(periods=Periods(self.periods.periods[indices]), values=self.values[indices], unit=self.unit)
    elif isinstance(indices, int):
        return self.__class__(periods=Periods([self.periods.periods[indices]]), values=[self.values[indices]], unit=self.unit)
    elif isinstance(indices, list):
        return self.__class__(periods=Periods([self.periods.periods[i] for i in indices]), values=[self.values[i] for i in indices], unit=self.unit)
    raise ValueError()


@target("libecalc.common.utils.rates.TimeSeries.__setitem__", props=["C05"])
def TimeSeries_setitem(self, indices, values):
    if isinstance(values, list):
        if isinstance(indices, slice):
            self.values[indices] = values
        elif isinstance(indices, list):
            for index, value in zip(indices, values):
                self.values[index] = value
        else:
            raise ValueError()
    elif isinstance(indices, slice):
        self.values[indices] = [values]
    elif isinstance(indices, list):
        for index in indices:
            self.values[index] = values
    elif isinstance(indices, int):
        self.values[indices] = values
    else:
        raise ValueError()


@target("libecalc.common.utils.rates.TimeSeries.fill_values_for_new_periods", props=["C04", "C05"])
def TimeSeries_fill_values_for_new_periods(self, new_periods, fillna):
    for period in self.periods:
        if period not in new_periods:
            raise ValueError()
    new_values = defaultdict(float)
    new_values.update(dict.fromkeys(new_periods, fillna))
    for t, v in zip(self.periods, self.values):
        if t in new_values:
            new_values[t] = v
    return self.__class__(periods=new_periods, values=new_values.values(), unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeries.__eq__", props=["C05"])
def TimeSeries_eq(self, other):
    if not isinstance(other, TimeSeries):
        return NotImplemented
    return bool(all((isinstance(this, float) and isinstance(other, float) and np.isnan(other) and np.isnan(this) or other == this for this, other in zip(self.values, other.values))) and self.periods == other.periods and (self.unit == other.unit))


@target("libecalc.common.utils.rates.TimeSeriesBoolean.resample", props=["C04"])
def TimeSeriesBoolean_resample(self, freq, include_start_date=True, include_end_date=True):
    if freq is Frequency.NONE:
        return self.model_copy()
    new_periods = resample_periods(self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date)
    resampled = []
    for period in new_periods:
        start_index = self.all_dates.index(max([date for date in self.all_dates if date <= period.start]))
        end_index = self.all_dates.index(max([date for date in self.all_dates if date < period.end]))
        resampled.append(all(self.values[start_index:end_index + 1]))
    return TimeSeriesBoolean(periods=new_periods, values=resampled, unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeriesBoolean.__mul__", props=["C05"])
def TimeSeriesBoolean_mul(self, other):
    if not isinstance(other, TimeSeriesBoolean):
        raise TypeError()
    return self.__class__(periods=self.periods, values=[self_item and other_item for self_item, other_item in zip(self.values, other.values)], unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeriesFloat.convert_none_to_nan", props=["C04", "C05"])
def TimeSeriesFloat_convert_none_to_nan(cls, v):
    if isinstance(v, list):
        return [i if i is not None else math.nan for i in v]
    return v


@target("libecalc.common.utils.rates.TimeSeriesVolumesCumulative.convert_none_to_nan", props=["C04", "C05"])
def TimeSeriesVolumesCumulative_convert_none_to_nan(cls, v):
    if isinstance(v, list):
        return [i if i is not None else math.nan for i in v]
    return v


@target("libecalc.common.utils.rates.TimeSeriesVolumesCumulative.resample", props=["C04"])
def TimeSeriesVolumesCumulative_resample(self, freq, include_start_date=True, include_end_date=True):
    if freq is Frequency.NONE:
        return self.model_copy()
    ds = pd.Series(index=self.all_dates, data=[0] + self.values)
    new_periods = resample_periods(self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date)
    new_dates = new_periods.all_dates
    if ds.index[-1] not in new_dates:
        pass
    ds_interpolated = ds.reindex(ds.index.union(new_dates)).interpolate('time')
    resampled = ds_interpolated.reindex(new_dates).values.tolist()
    if not include_start_date:
        dropped_cumulative_volume = resampled[0]
        resampled = [value - dropped_cumulative_volume for value in resampled[1:]]
    else:
        resampled = resampled[1:]
    return TimeSeriesVolumesCumulative(periods=new_periods, values=resampled, unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeriesVolumesCumulative.__truediv__", props=["C04", "C05", "C14"])
def TimeSeriesVolumesCumulative_truediv(self, other):
    if not isinstance(other, TimeSeriesVolumesCumulative):
        raise TypeError()
    if self.unit == Unit.KILO and other.unit == Unit.STANDARD_CUBIC_METER:
        unit = Unit.KG_SM3
    elif self.unit == Unit.KILO and other.unit == Unit.BOE:
        unit = Unit.KG_BOE
    else:
        raise ProgrammingError(f"Unable to divide unit '{self.unit}' by unit '{other.unit}'. Please add unit conversion.")
    return TimeSeriesCalendarDayRate(periods=self.periods, values=np.divide(self.values, other.values, out=np.full_like(self.values, fill_value=np.nan), where=np.asarray(other.values) != 0.0).tolist(), unit=unit)


@target("libecalc.common.utils.rates.TimeSeriesVolumesCumulative.to_volumes", props=["C04"])
def TimeSeriesVolumesCumulative_to_volumes(self):
    period_volumes = np.diff([0.0] + self.values).tolist()
    return TimeSeriesVolumes(periods=self.periods, values=period_volumes, unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeriesVolumes.convert_none_to_nan", props=["C04", "C05"])
def TimeSeriesVolumes_convert_none_to_nan(cls, v):
    if isinstance(v, list):
        return [i if i is not None else math.nan for i in v]
    return v


@target("libecalc.common.utils.rates.TimeSeriesVolumes.resample", props=["C04"])
def TimeSeriesVolumes_resample(self, freq, include_start_date=True, include_end_date=True):
    return self.cumulative().resample(freq, include_start_date, include_end_date).to_volumes()


@target("libecalc.common.utils.rates.TimeSeriesVolumes.cumulative", props=["C04"])
def TimeSeriesVolumes_cumulative(self):
    return TimeSeriesVolumesCumulative(periods=self.periods, values=Rates.compute_cumulative(self.values).tolist(), unit=self.unit)


@target("libecalc.common.utils.rates.TimeSeriesVolumes.to_rate", props=["C03", "C04"])
def TimeSeriesVolumes_to_rate(self, regularity=None):
    if len(self.all_dates) > 1:
        delta_days = calculate_delta_days(np.asarray(self.all_dates)).tolist()
        average_rates = [volume / days for volume, days in zip(self.values, delta_days)]
    else:
        average_rates = self.values
        regularity = [1.0] * len(self.periods)
    return TimeSeriesRate(periods=self.periods, values=average_rates, unit=self.unit.volume_to_rate(), regularity=regularity, rate_type=RateType.CALENDAR_DAY)


@target("libecalc.common.utils.rates.TimeSeriesVolumes.__truediv__", props=["C04", "C05", "C14"])
def TimeSeriesVolumes_truediv(self, other):
    if not isinstance(other, TimeSeriesVolumes):
        raise TypeError()
    if self.unit == Unit.KILO and other.unit == Unit.STANDARD_CUBIC_METER:
        unit = Unit.KG_SM3
    elif self.unit == Unit.KILO and other.unit == Unit.BOE:
        unit = Unit.KG_BOE
    else:
        raise ProgrammingError(f"Unable to divide unit '{self.unit}' by unit '{other.unit}'. Please add unit conversion.")
    if len(self.values) != len(other.values):
        raise ValueError()
    return TimeSeriesCalendarDayRate(periods=self.periods, values=np.divide(self.values, other.values, out=np.full_like(self.values, fill_value=np.nan), where=np.asarray(other.values) != 0.0).tolist(), unit=unit)


@target("libecalc.common.utils.rates.TimeSeriesStreamDayRate.__add__", props=["C05"])
def TimeSeriesStreamDayRate_add(self, other):
    if not self.unit == other.unit:
        raise ValueError()
    if isinstance(other, TimeSeriesStreamDayRate):
        return TimeSeriesStreamDayRate(periods=self.periods, values=elementwise_sum(self.values, other.values).tolist(), unit=self.unit)
    else:
        raise TypeError()


@target("libecalc.common.utils.rates.TimeSeriesRate.convert_none_to_nan", props=["C04", "C05"])
def TimeSeriesRate_convert_none_to_nan(cls, v):
    if isinstance(v, list):
        return [i if i is not None else math.nan for i in v]
    return v


@target("libecalc.common.utils.rates.TimeSeriesRate.check_regularity_length", props=["C03", "C05"])
def TimeSeriesRate_check_regularity_length(cls, regularity, info):
    regularity_length = len(regularity)
    periods_length = len(info.data['periods'].periods)
    if regularity_length != periods_length:
        raise ValueError()
    return regularity


@target("libecalc.common.utils.rates.TimeSeriesRate.__add__", props=["C03", "C05"])
def TimeSeriesRate_add(self, other):
    if not self.unit == other.unit:
        raise ValueError()
    if not self.rate_type == other.rate_type:
        raise ValueError()
    if isinstance(other, TimeSeriesRate):
        if self.regularity == other.regularity:
            return self.__class__(periods=self.periods, values=elementwise_sum(self.values, other.values).tolist(), unit=self.unit, regularity=self.regularity, rate_type=self.rate_type)
        else:
            sum_calendar_day = elementwise_sum(self.to_calendar_day().values, other.to_calendar_day().values)
            sum_stream_day = elementwise_sum(self.to_stream_day().values, other.to_stream_day().values)
            return TimeSeriesRate(periods=self.periods, values=elementwise_sum(self.values, other.values).tolist(), unit=self.unit, regularity=np.divide(sum_calendar_day, sum_stream_day, out=np.zeros_like(sum_stream_day), where=sum_stream_day != 0.0).tolist(), rate_type=self.rate_type)
    else:
        raise TypeError()


@target("libecalc.common.utils.rates.TimeSeriesRate.extend", props=["C03", "C05"])
def TimeSeriesRate_extend(self, other):
    if not isinstance(other, TimeSeriesRate):
        raise ValueError()
    if not self.unit == other.unit:
        raise ValueError()
    if not self.rate_type == other.rate_type:
        raise ValueError()
    if len(self) > 0 and len(other) > 0:
        if self.last_date != other.first_date and self.first_date != other.last_date:
            raise ValueError()
        if self.last_date == other.first_date:
            first, second = (self, other)
        else:
            first, second = (other, self)
    else:
        first, second = (self, other)
    return self.__class__(periods=first.periods + second.periods, values=first.values + second.values, unit=self.unit, regularity=first.regularity + second.regularity, rate_type=self.rate_type)


@target("libecalc.common.utils.rates.TimeSeriesRate.merge", props=["C03", "C05"])
def TimeSeriesRate_merge(self, other):
    if not isinstance(other, type(self)):
        raise ValueError()
    if self.unit != other.unit:
        raise ValueError()
    if not self.rate_type == other.rate_type:
        raise ValueError()
    if Period.intersects(self.period, other.period) != 0:
        raise ValueError()
    if self.first_date != other.last_date and self.last_date != other.first_date:
        raise ValueError()
    if self.first_date < other.last_date:
        first = self
        second = other
    else:
        first = other
        second = self
    merged_periods = first.periods + second.periods
    merged_values = first.values + second.values
    merged_regularity = first.regularity + second.regularity
    return self.__class__(periods=merged_periods, values=merged_values, regularity=merged_regularity, unit=self.unit, rate_type=self.rate_type)


@target("libecalc.common.utils.rates.TimeSeriesRate.for_period", props=["C03", "C05"])
def TimeSeriesRate_for_period(self, period):
    if not Period.intersects(self.period, period):
        return self.__class__(periods=Periods([]), values=[], regularity=[], unit=self.unit, rate_type=self.rate_type)
    start_index, end_index = period.get_period_indices(self.periods)
    return self.__class__(periods=Periods(self.periods.periods[start_index:end_index]), values=self.values[start_index:end_index], regularity=self.regularity[start_index:end_index], unit=self.unit, rate_type=self.rate_type)


@target("libecalc.common.utils.rates.TimeSeriesRate.to_calendar_day", props=["C03", "C04"])
def TimeSeriesRate_to_calendar_day(self):
    if self.rate_type == RateType.CALENDAR_DAY:
        return self
    calendar_day_rates = Rates.to_calendar_day(stream_day_rates=np.asarray(self.values), regularity=self.regularity).tolist()
    return self.__class__(periods=self.periods, values=calendar_day_rates, regularity=self.regularity, unit=self.unit, rate_type=RateType.CALENDAR_DAY)


@target("libecalc.common.utils.rates.TimeSeriesRate.to_stream_day", props=["C03", "C04"])
def TimeSeriesRate_to_stream_day(self):
    if self.rate_type == RateType.STREAM_DAY:
        return self
    stream_day_rates = Rates.to_stream_day(calendar_day_rates=np.asarray(self.values), regularity=self.regularity).tolist()
    return self.__class__(periods=self.periods, values=stream_day_rates, regularity=self.regularity, unit=self.unit, rate_type=RateType.STREAM_DAY)


@target("libecalc.common.utils.rates.TimeSeriesRate.to_volumes", props=["C03", "C04"])
def TimeSeriesRate_to_volumes(self):
    volumes = Rates.to_volumes(rates=self.to_calendar_day().values, periods=self.periods).tolist()
    return TimeSeriesVolumes(periods=self.periods, values=volumes, unit=self.unit.rate_to_volume())


@target("libecalc.common.utils.rates.TimeSeriesRate.resample", props=["C03", "C04"])
def TimeSeriesRate_resample(self, freq, include_start_date=True, include_end_date=True):
    if freq is Frequency.NONE:
        return self.model_copy()
    calendar_day_volumes = TimeSeriesVolumesCumulative(values=Rates.compute_cumulative_volumes_from_daily_rates(rates=self.to_calendar_day().values, periods=self.periods).tolist(), periods=self.periods, unit=self.to_volumes().unit).resample(freq=freq, include_start_date=include_start_date, include_end_date=include_end_date).to_volumes()
    stream_day_volumes = TimeSeriesVolumesCumulative(values=Rates.compute_cumulative_volumes_from_daily_rates(rates=self.to_stream_day().values, periods=self.periods).tolist(), periods=self.periods, unit=self.to_volumes().unit).resample(freq=freq, include_start_date=include_start_date, include_end_date=include_end_date).to_volumes()
    new_regularity = [float(cal_day) / float(stream_day) if stream_day != 0.0 else 0.0 for cal_day, stream_day in zip(calendar_day_volumes.values, stream_day_volumes.values)]
    new_time_series = calendar_day_volumes.to_rate(regularity=new_regularity)
    if self.rate_type == RateType.CALENDAR_DAY:
        return new_time_series
    else:
        return new_time_series.to_stream_day()


@target("libecalc.common.utils.rates.TimeSeriesRate.__getitem__", props=["C03", "C05"])
def TimeSeriesRate_getitem(self, indices):
    if isinstance(indices, slice):
        return self.__class__(periods=self.periods[indices], values=self.values[indices], regularity=self.regularity[indices], unit=self.unit, rate_type=self.rate_type)
    elif isinstance(indices, int):
        return self.__class__(periods=self.periods[indices], values=[self.values[indices]], regularity=[self.regularity[indices]], unit=self.unit, rate_type=self.rate_type)
    elif isinstance(indices, list | np.ndarray):
        indices = list(indices)
        return self.__class__(periods=self.periods[indices], values=[self.values[i] for i in indices], regularity=[self.regularity[i] for i in indices], unit=self.unit, rate_type=self.rate_type)
    raise ValueError()


@target("libecalc.common.utils.rates.TimeSeriesRate.__eq__", props=["C03", "C05"])
def TimeSeriesRate_eq(self, other):
    if not isinstance(other, TimeSeriesRate):
        raise NotImplementedError
    return bool(all((np.isnan(other) and np.isnan(this) or other == this for this, other in zip(self.values, other.values))) and self.periods == other.periods and (self.unit == other.unit) and (self.regularity == other.regularity) and (self.rate_type == other.rate_type))


@target("libecalc.common.utils.rates.TimeSeriesRate.from_timeseries_stream_day_rate", props=["C03", "C04"])
def TimeSeriesRate_from_timeseries_stream_day_rate(cls, time_series_stream_day_rate, regularity):
    if time_series_stream_day_rate is None:
        return None
    regularity = regularity.for_periods(time_series_stream_day_rate.periods)
    return cls(periods=time_series_stream_day_rate.periods, values=time_series_stream_day_rate.values, unit=time_series_stream_day_rate.unit, rate_type=RateType.STREAM_DAY, regularity=regularity.values)


@target("libecalc.common.utils.rates.TimeSeriesRate.to_stream_day_timeseries", props=["C03", "C04"])
def TimeSeriesRate_to_stream_day_timeseries(self):
    stream_day_rate = self.to_stream_day()
    return TimeSeriesStreamDayRate(periods=stream_day_rate.periods, values=stream_day_rate.values, unit=stream_day_rate.unit)
